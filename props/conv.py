"""Contracts of the uncompressed converters (createConverter, constructors, jobsX/jobsY, process).

Spec functions are written from the format names (Texture.h documents: components are listed from the
most significant to the least significant bits of packed words; array formats list them in memory order)."""
import re
from vc import term as T, smt, build, execu as X, run, evalt, loops

C64, C32 = X.C64, lambda v: T.const(v, 32)
NMAX = 1 << 28

F = T.fconst
def clampf(v, lo, hi, w=32):
    lo, hi = F(lo, w), F(hi, w)
    return T.ite(T.fp("fp.lt", [v, lo], 0), lo, T.ite(T.fp("fp.lt", [hi, v], 0), hi, v))
def rnd(v): return T.fp("fp.round", [v], v.w, "RNA")
def unorm(v, bits):
    m = clampf(v, 0.0, 1.0)
    if bits > 1: m = T.fp("fp.mul", [m, F(float(2 ** bits - 1))], 32)
    return T.extract(T.fp("fp.toui", [rnd(m)], 32), bits - 1, 0)
def snorm(v, bits):
    return T.trunc(T.fp("fp.tosi", [rnd(T.fp("fp.mul", [clampf(v, -1.0, 1.0), F(float(2 ** (bits - 1) - 1))], 32))], 32), bits)
def uint(v, bits):
    if bits == 10 or bits == 2:
        return T.extract(T.fp("fp.toui", [rnd(clampf(v, 0.0, float(2 ** bits - 1)))], 32), bits - 1, 0)
    d = rnd(T.fp("fp.cvt", [v], 64))      # limits of 32-bit integers are exact in binary64
    return T.extract(T.fp("fp.toui", [clampf(d, 0.0, float(2 ** bits - 1), 64)], 32), bits - 1, 0)
def sint(v, bits):
    d = rnd(T.fp("fp.cvt", [v], 64))
    return T.trunc(T.fp("fp.tosi", [clampf(d, -float(2 ** (bits - 1)), float(2 ** (bits - 1) - 1), 64)], 32), bits)

# format -> (kind, components [(channel, bits)])   kind 'array': bytes in this order; 'packed': most significant first
FORMATS = {}
def _arr(name, ch, bits): FORMATS[name] = ("array", [(c, bits) for c in ch])
def _pack(name, comps): FORMATS[name] = ("packed", comps)
_pack("R4G4", [("r", 4), ("g", 4)])
_pack("R4G4B4A4", [("r", 4), ("g", 4), ("b", 4), ("a", 4)])
_pack("B4G4R4A4", [("b", 4), ("g", 4), ("r", 4), ("a", 4)])
_pack("A4R4G4B4", [("a", 4), ("r", 4), ("g", 4), ("b", 4)])
_pack("R5G6B5", [("r", 5), ("g", 6), ("b", 5)])
_pack("B5G6R5", [("b", 5), ("g", 6), ("r", 5)])
_pack("R5G5B5A1", [("r", 5), ("g", 5), ("b", 5), ("a", 1)])
_pack("B5G5R5A1", [("b", 5), ("g", 5), ("r", 5), ("a", 1)])
_pack("A1R5G5B5", [("a", 1), ("r", 5), ("g", 5), ("b", 5)])
_pack("A2R10G10B10", [("a", 2), ("r", 10), ("g", 10), ("b", 10)])
_pack("A2B10G10R10", [("a", 2), ("b", 10), ("g", 10), ("r", 10)])
for n, b in ((8, 8), (16, 16), (32, 32)):
    _arr("R%d" % n, "r", b); _arr("R%dG%d" % (n, n), "rg", b); _arr("R%dG%dB%d" % (n, n, n), "rgb", b); _arr("R%dG%dB%dA%d" % (n, n, n, n), "rgba", b)
_arr("B8G8R8", "bgr", 8); _arr("B8G8R8A8", "bgra", 8); _arr("A8B8G8R8", "abgr", 8)
FORMATS["B10G11R11_UFloat"] = ("f11", []); FORMATS["E5B9G9R9_UFloat"] = ("e5", [])
CHN = {"r": 0, "g": 1, "b": 2, "a": 3}

TYPES = ["UNorm", "SNorm", "UInt", "Int", "UFloat", "Float"]
def valid_types(fmt):
    if fmt in ("B10G11R11_UFloat", "E5B9G9R9_UFloat"): return ["UFloat"]
    if re.match(r"R8(G8)?(B8)?(A8)?$", fmt): return ["UNorm", "SNorm", "UInt", "Int"]
    if re.match(r"R16", fmt): return ["UNorm", "SNorm", "UInt", "Int", "Float"]
    if re.match(r"R32", fmt): return ["UInt", "Int", "Float"]
    if fmt.startswith("A2"): return ["UNorm", "UInt"]
    return ["UNorm"]

def texel_bytes(fmt):
    k, c = FORMATS[fmt]
    if k in ("f11", "e5"): return 4
    return sum(b for _, b in c) // 8

def half_rne(v): return T.uf("f32_to_f16_rne", [v], 16)
def half_rna(v): return T.fp("fp.tohalf", [v], 16, "RNA")

def comp(v, bits, ty):
    if ty == "UNorm": return unorm(v, bits)
    if ty == "SNorm": return snorm(v, bits)
    if ty == "UInt": return uint(v, bits)
    if ty == "Int": return sint(v, bits)
    if ty == "Float" and bits == 32: return v
    raise X.Unsupported("spec")

def spec_units(fmt, ty, px, hw=None):
    """list of (byte offset, size, term): the bytes of one texel; px(channel) -> 32-bit float pattern"""
    k, comps = FORMATS[fmt]
    if k == "array":
        out = []; o = 0
        for c, b in comps:
            if ty == "Float" and b == 16: v = hw(px(CHN[c]))
            else: v = comp(px(CHN[c]), b, ty)
            out.append((o, b // 8, v)); o += b // 8
        return out
    if k == "packed":
        tot = sum(b for _, b in comps); v = None; sh = 0
        acc = T.const(0, tot)
        for c, b in reversed(comps):
            x = comp(px(CHN[c]), b, ty)
            acc = T.add(acc, T.mulc(T.zext(x, tot), 1 << sh)) if True else acc
            sh += b
        return [(0, tot // 8, acc)]
    raise X.Unsupported("no deductive spec for " + fmt)

NOIN = [r"^std::vector<unsigned char, std::allocator<unsigned char> >::resize\(", r"::createConverter\(", r"^glm::detail::toFloat16", r"^glm::detail::overflow",
        r"^glm::packF2x11_1x10", r"^glm::packF3x9_E1x5"]

_mods = {}
def modules():
    if "m" not in _mods:
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(2) as p:
            a = p.submit(build.ir, "lib/src/Converter.cpp", NOIN); b = p.submit(build.ir, "lib/src/StandardConverter.cpp", NOIN)
            _mods["m"] = [a.result(), b.result()]
        _mods["p"] = X.Program(_mods["m"])
        names = list(FORMATS)
        _mods["fmt"] = build.enum_values("cuttlefish/Texture.h", ["Texture::Format::" + n for n in names])
        _mods["ty"] = build.enum_values("cuttlefish/Texture.h", ["Texture::Type::" + n for n in TYPES])
    return _mods["p"]
def fmt_val(n): return _mods["fmt"]["Texture::Format::" + n]
def ty_val(n): return _mods["ty"]["Texture::Type::" + n]

class Setup:
    """symbolic image of W x H pixels of 4 floats; N = W*H"""
    def __init__(self):
        self.W = T.var("W", 32); self.H = T.var("H", 32)
        self.N = T.mul(self.W, self.H)
        for t in (self.W, self.H, self.N): T.FACTS[t.id] = NMAX
        self.hyps = [T.ne(self.W, C32(0)), T.ne(self.H, C32(0)), T.ule(self.N, C32(NMAX)), T.ule(self.W, self.N), T.ule(self.H, self.N)]

def px(row, col, c):
    return T.uf("px", [row, T.add(T.mulc(T.zext(col, 64), 16), C64(4 * c))], 32)

def executor(S, fmt_t, ty_t, nan_ok=False):
    P = modules()
    ex = X.Executor(P)
    ex.arrays = {"out"}
    ex.assumptions = list(S.hyps)
    img = X.Base("image")
    def rowread(ex, b, off, size, ty):
        u = T.uf("px", [b.idx[0], off], 32)
        if not nan_ok: 
            a = T.not_(T.fp("fp.isnan", [u], 0))
            if all(a is not z for z in ex.assumptions): ex.assumptions.append(a)
        if size != 4: raise X.Unsupported("pixel component read of %d bytes" % size)
        return u
    ex.init_hooks["row"] = rowread
    ex.sizes["row"] = lambda b: T.mulc(T.zext(S.W, 64), 16)
    def scan(ex, fr, st, ins, dem, v):
        ex.oblige(st, "precondition of Image::scanline: row < height", T.ult(v[1], S.H), "pre")
        return X.ptr(X.Base("row", (v[1],)))
    def opnew(ex, fr, st, ins, dem, v):
        n = st.ghost.get("heap", 0); st.ghost["heap"] = n + 1
        b = X.Base("heap%d" % n); ex.sizes[b.name] = lambda b, sz=v[0]: sz
        return X.ptr(b)
    def resize(ex, fr, st, ins, dem, v):
        n = v[1]; st.ghost["size"] = n
        ex.sizes["out"] = lambda b: n
        vec, o = v[0].single()
        ex.write(st, vec, T.add(o, C64(0)), 8, X.ptr(X.Base("out")), fr.mod)
        ex.write(st, vec, T.add(o, C64(8)), 8, X.ptr(X.Base("out"), n), fr.mod)
        ex.write(st, vec, T.add(o, C64(16)), 8, X.ptr(X.Base("out"), n), fr.mod)
        return None
    def mismatch(ex, fr, st, ins, dem, v): raise X.Unsupported(dem)
    def isval(ex, fr, st, ins, dem, v): return NotImplemented
    ex.contracts = [
        (re.compile(r"^cuttlefish::Texture::format\(\) const$"), lambda *a: fmt_t),
        (re.compile(r"^cuttlefish::Texture::type\(\) const$"), lambda *a: ty_t),
        (re.compile(r"^cuttlefish::Image::width\(\) const$"), lambda *a: S.W),
        (re.compile(r"^cuttlefish::Image::height\(\) const$"), lambda *a: S.H),
        (re.compile(r"^cuttlefish::Image::scanline\(unsigned int\) const$"), scan),
        (re.compile(r"^operator new\(unsigned long\)$"), opnew),
        (re.compile(r"^operator delete\("), lambda *a: None),
        (re.compile(r"^std::vector<unsigned char, std::allocator<unsigned char> >::resize\(unsigned long\)$"), resize),
        (re.compile(r"^glm::packF2x11_1x10\("), lambda ex, fr, st, ins, dem, v: T.uf("glm_packF2x11_1x10", vec3(ex, st, v), 32)),
        (re.compile(r"^glm::packF3x9_E1x5\("), lambda ex, fr, st, ins, dem, v: T.uf("glm_packF3x9_E1x5", vec3(ex, st, v), 32)),
        (re.compile(r"^glm::detail::toFloat16\("), lambda ex, fr, st, ins, dem, v: T.uf("glm_toFloat16", [ex.read(st, *v[0].single(), 4, ("int", 32))], 16)),
    ]
    def intr(ex, fr, st, n, v):
        if n == "x86.vcvtps2ph.128":
            if not (T.isc(v[1]) and v[1].x == 0): raise X.Unsupported("vcvtps2ph rounding mode")
            return tuple(half_rne(x) for x in v[0]) + tuple(T.const(0, 16) for _ in range(4))
        return NotImplemented
    ex.opts["intrinsic"] = intr
    ex.img = img; ex.opts["unroll_bounded"] = 64
    ex._hw = T.var("hw", 0)
    ex.init_hooks["g:_ZN10cuttlefish20hasHardwareHalfFloatE"] = lambda ex, b, off, size, ty: T.zext(ex._hw, 8)
    return ex

def vec3(ex, st, v):
    b, o = v[0].single()
    return [ex.read(st, b, T.add(o, C64(4 * i)), 4, ("int", 32)) for i in range(3)]

def find_func(rx):
    P = modules()
    r = [n for n, d in P.dem.items() if re.search(rx, d) and n in P.funcs]
    if len(r) != 1: raise X.Unsupported("function %s: %d candidates" % (rx, len(r)))
    return r[0]

def create(ex, st):
    """run createConverter; -> (state, Ptr of the converter or null)"""
    P = modules()
    f = P.funcs[find_func(r"^cuttlefish::createConverter\(")]
    names = [p[0] for p in f.params]
    args = [X.ptr(X.Base("ret")), X.ptr(X.Base("texture")), X.ptr(ex.img), C32(2), T.var("threads", 32)]
    if len(f.params) != 5: raise X.Unsupported("createConverter signature")
    fr = X.Frame(f, P.cfg(f))
    r = ex.run_function(fr, st, args)
    if r is None: raise X.Unsupported("createConverter does not return")
    st2 = r[0]
    return st2, ex.read(st2, X.Base("ret"), C64(0), 8, ("ptr",))

def method(ex, st, obj, rx):
    """virtual method of the object, through its vtable"""
    vt = ex.read(st, obj, C64(0), 8, ("ptr",))
    b, o = vt.single()
    cells = ex.ro_init(b.name, C64(0), 8, None, None)
    P = modules()
    for off in sorted(cells):
        if off < o.x: continue
        v = cells[off][1]
        if isinstance(v, X.Ptr) and v.cases[0][1] is not None and v.cases[0][1].name.startswith("fn:"):
            nm = v.cases[0][1].name[3:]
            if re.search(rx, P.dem.get(nm, nm)) and nm in P.funcs: return P.funcs[nm]
    raise X.Unsupported("virtual method " + rx)

def call(ex, st, f, args):
    P = modules()
    fr = X.Frame(f, P.cfg(f))
    return ex.run_function(fr, st.fork(), args)

BATCH = 32
BATCHES = (32, 64, 16, 128, 8, 4, 2, 1, 48, 24, 96, 256)
def unit_conv(fmt, ty):
    def go(res):
        if ty == "Float" and fmt.startswith("R16"):
            conv1(res, fmt, ty, T.TRUE); conv1(res, fmt, ty, T.FALSE)     # with / without hardware half floats
        else: conv1(res, fmt, ty, T.TRUE)
    return go

def batch(jx, S):
    """the number of texels per job: the divisor for which jobsX is ceil(N/B), from a sample (then proved)"""
    for B in BATCHES:
        ok = True
        for w, h in ((997, 1009), (1, 1), (3, 21), (B, 1), (B + 1, 1), (2*B - 1, 1)):
            n = w*h
            try: v, = evalt.evaluate([jx], {"W": w, "H": h}, lambda nm, a, wd: 0)
            except Exception: return BATCH
            if v != (n + B - 1)//B: ok = False; break
        if ok: return B
    return BATCH

def conv1(res, fmt, ty, hwflag, values=True):
    if True:
        S = Setup()
        ex = executor(S, C32(fmt_val(fmt)), C32(ty_val(ty)))
        ex._hw = hwflag
        bs = texel_bytes(fmt)
        st, p = create(ex, X.State())
        P = modules()
        obj, off = p.single()
        if obj is None:
            ex.oblige(st, "a converter exists for the valid combination %s %s" % (fmt, ty), T.FALSE, "post")
            run.discharge_into(res, ex.obs, (S.W, S.H)); run.collect(res, ex); return
        # constructor post: buffer size
        n = st.ghost["size"]
        this = X.ptr(obj)
        ex.oblige(st, "buffer size = width*height*%d" % bs, T.eq(n, T.mulc(T.zext(S.N, 64), bs)), "post", (S.W, S.H))
        ex.init_hooks["out"] = lambda ex, b, off, size, ty: T.uf("unwritten", [off], 8*size)
        jx = call(ex, st, method(ex, st, obj, r"::jobsX\(\) const$"), [this])[1]
        jy = call(ex, st, method(ex, st, obj, r"::jobsY\(\) const$"), [this])[1]
        # jobs cover: job (x,y) handles texels [Bx, Bx+B) ; jobs are x < ceil(N/B), y == 0
        B = batch(jx, S)
        ex.oblige(st, "jobsX = ceil(width*height/%d)" % B, T.eq(jx, T.udiv(T.add(S.N, C32(B - 1)), C32(B))), "post", (S.W, S.H))
        ex.oblige(st, "jobsY = 1", T.eq(jy, C32(1)), "post", (S.W, S.H))
        x = T.var("job", 32); T.FACTS[x.id] = NMAX // B
        ex.assumptions += [T.ult(x, T.udiv(T.add(S.N, C32(B - 1)), C32(B))), T.ule(x, C32(NMAX // B))]
        tt = [T.add(T.mulc(x, B), C32(i)) for i in range(B)]
        # texel Bx exists for every job
        ex.assumptions.append(T.ult(tt[0], S.N))
        for t in tt:
            ex.assumptions.append(T.iff(T.ult(T.udiv(t, S.W), S.H), T.ult(t, S.N)))
            ex.assumptions.append(T.ult(T.urem(t, S.W), S.W))
        proc = method(ex, st, obj, r"::process\(unsigned int, unsigned int, cuttlefish::Converter::ThreadData\*\)$")
        res.functions += [P.dem[proc.name], "createConverter[%s,%s]" % (fmt, ty)]
        r = call(ex, st, proc, [this, x, C32(0), X.NULL])
        if r is None: raise X.Unsupported("process does not return")
        s2 = r[0]
        reg = s2.mem.get("out"); log = reg.log if reg is not None and reg.log is not None else []
        inputs = (S.W, S.H, x)
        # frame: nothing but the output is written, and only inside this job's texels
        before = st.mem
        for nme in s2.mem:
            if nme == "out" or s2.mem[nme] is before.get(nme): continue
            if nme.startswith("alloca") or nme.startswith("stk"): continue
            old = before.get(nme)
            if old is not None and old.cells == s2.mem[nme].cells and s2.mem[nme].log is None: continue
            if nme.startswith("a:"): continue
            ex.oblige(s2, "frame: process writes only the output buffer (%s)" % nme, T.FALSE, "frame")
        lo = T.mulc(T.zext(T.mulc(x, B), 64), bs)
        for w in log:
            d = T.sub(w.off, lo)
            s3 = s2.fork(); s3.pc = T.and_(s2.pc, w.guard)
            ex.oblige(s3, "frame: job writes only its own texels", T.ule(d, C64(B * bs - w.size)) , "frame", inputs)
        # texel contents
        for i, t in enumerate(tt):
            s3 = s2.fork(); s3.pc = T.and_(s2.pc, T.ult(t, S.N))
            row, col = T.udiv(t, S.W), T.urem(t, S.W)
            pxs = lambda c: T.uf("px", [row, T.add(T.mulc(T.zext(col, 64), 16), C64(4 * c))], 32)
            base = T.mulc(T.zext(t, 64), bs)
            if not values:
                for o, sz in touched(log, bs):
                    got = ex.read(s3, X.Base("out"), T.add(base, C64(o)), sz, ("int", 8 * sz))
                    got = resolve(ex, s3, got, "texel %s/%s is written" % (fmt, ty), inputs)
                    ex.oblige(s3, "texel %s/%s byte %d is written" % (fmt, ty, o), T.const(int(not loops.apps([got], lambda u: u.op == "uf" and u.x == "unwritten")), 0), "post", inputs)
                continue
            if fmt in ("B10G11R11_UFloat", "E5B9G9R9_UFloat"):
                fn = "glm_packF2x11_1x10" if fmt[0] == "B" else "glm_packF3x9_E1x5"
                units = [(0, 4, T.uf(fn, [pxs(0), pxs(1), pxs(2)], 32))]
            elif ty == "Float" and texel_bytes(fmt) // len(FORMATS[fmt][1]) == 2:
                hw = ex._hw
                units = spec_units(fmt, ty, pxs, lambda v: T.ite(hw, half_rne(v), T.uf("glm_toFloat16", [v], 16)))
            else: units = spec_units(fmt, ty, pxs)
            for o, sz, sp in units:
                got = ex.read(s3, X.Base("out"), T.add(base, C64(o)), sz, ("int", 8 * sz))
                got = resolve(ex, s3, got, "texel %s/%s is written" % (fmt, ty), inputs)
                ex.oblige(s3, "texel %s/%s byte %d" % (fmt, ty, o), T.eq(got, sp), "post", inputs)
        # vacuity guards: the preconditions are satisfiable and the function returns for a concrete instance
        cov = evalt.evaluate([T.and_(*ex.assumptions), s2.pc], {"W": 5, "H": 7 * max(1, B // 32), "job": 1}, lambda n, a, w: 0)
        ex.oblige(X.State(), "cover: preconditions satisfiable and end of process reached", T.const(cov[0] and cov[1], 0), "cover")
        run.discharge_into(res, ex.obs, inputs)
        run.collect(res, ex)

def resolve(ex, st, t, name, inputs):
    """while the term is `guard ? a : b` with a guard free of floating point, oblige the guard and go on with a"""
    n = 0
    while t.op == "ite" and smt._nonfp(t.args[0]) and n < 8:
        ex.oblige(st, name, t.args[0], "post", inputs)
        t = t.args[1]; n += 1
    return t

def leafnames(t): return {u.x for u in smt.leaves(t).values()}

def half_unit(res):
    """glm::detail::toFloat16 (software path) is round-to-nearest (ties away) into binary16, for every non-NaN float"""
    P = modules()
    f = P.funcs[find_func(r"^glm::detail::toFloat16\(")]
    ex = X.Executor(P)
    v = T.var("v", 32)
    ex.assumptions = [T.not_(T.fp("fp.isnan", [v], 0))]
    ex.init_hooks["arg"] = lambda ex, b, off, size, ty: v
    ex.sizes["arg"] = lambda b: 4
    ex.contracts = [(re.compile(r"^glm::detail::overflow\("), lambda *a: T.var("ovf", 32))]
    fr = X.Frame(f, P.cfg(f))
    st, r = ex.run_function(fr, X.State(), [X.ptr(X.Base("arg"))])
    ex.oblige(st, "software half conversion rounds to nearest", T.eq(r, half_rna(v)), "post", (v,))
    res.functions.append("glm::detail::toFloat16")
    run.discharge_into(res, ex.obs, (v,), timeouts=(5, 5, 200))
    run.collect(res, ex)

def touched(log, bs):
    """(offset in the texel, size) of the pieces that process stores: the texel is checked piece by piece"""
    szs = {w.size for w in log}
    sz = min(szs) if szs else 1
    if bs % sz or any(z % sz for z in szs): sz = 1
    return [(o, sz) for o in range(0, bs, sz)]

def unit_struct(fmt, ty):
    """sizes, job grid, frame and completeness only"""
    return lambda res: conv1(res, fmt, ty, T.TRUE, values=False)

def lemma_unit(res):
    """t/W < H  <=>  t < W*H  and t%W < W  (over the integers, no overflow: W*H <= 2^28 <= 2^32)"""
    import z3, time
    t0 = time.time()
    t, W, H, q, r = z3.Ints("t W H q r")
    def pr(name, hyp, goal):
        s = z3.Solver(); s.set("timeout", 20000); s.add(*hyp); s.add(z3.Not(goal))
        ok = s.check() == z3.unsat
        res.obligations += 1; res.kinds["lemma"] += 1
        if ok: res.discharged += 1; res.modes["int"] += 1; res.backends["z3-5.3.2"] += 1
        else: res.failed.append({"unit": "lemma", "obligation": name, "kind": "lemma", "status": "undecided", "where": "", "solver": "z3", "mode": "int", "model": None, "goal": str(goal)})
    pre = [W > 0, H > 0, t >= 0, q >= 0, r >= 0, r < W, t == q * W + r]
    pr("q<H => t<W*H", pre + [q < H, (H - q - 1) * W >= 0], t < W * H)
    pr("nonneg product", [H - q - 1 >= 0, W > 0], (H - q - 1) * W >= 0)
    pr("q>=H => t>=W*H", pre + [q >= H, (q - H) * W >= 0], t >= W * H)
    n, x = z3.Ints("n x")
    for B in BATCHES:
        pr("job exists => first texel exists (%d)" % B, [n > 0, x >= 0, x < (n + B - 1) / B], B * x < n)
        pr("every texel has exactly one job (%d)" % B, [n > 0, t >= 0, t < n], z3.And(t / B < (n + B - 1) / B, B * (t / B) <= t, t < B * (t / B) + B, z3.ForAll([x], z3.Implies(z3.And(B * x <= t, t < B * x + B), x == t / B))))
    res.solver_s += time.time() - t0
    res.functions.append("lemma: texel index arithmetic")

def native_conv(ctx, failed):
    exe = build.native("conv.cpp")
    return build.run_native(exe, [run.SEED, 1 if run.TIER == "thorough" else 0], 600)
