"""Contracts of Image.cpp: pixel access, whole-image operations, value semantics.

FreeImage (the external library that owns the pixels) is described by contracts: a bitmap is an object with a type, a size
and rows of bytes; its functions fail or do what the FreeImage documentation says.  Everything in Image.cpp is executed."""
import re
from vc import term as T, smt, build, execu as X, run, evalt, loops
C64, C32 = X.C64, lambda v: T.const(v, 32)
Z64 = C64(0)
F64 = lambda x: T.fconst(x, 64)

FMTS = ["Gray8", "Gray16", "RGB5", "RGB565", "RGB8", "RGB16", "RGBF", "RGBA8", "RGBA16", "RGBAF", "Int16", "UInt16", "Int32", "UInt32", "Float", "Double", "Complex"]
# memory layout: name -> (granule, [(role, offset, size)]), as FreeImage.h documents it (8-bit colours are stored b, g, r, a on this platform)
def _l(chs, n): return (n, [(c, i * n, n) for i, c in enumerate(chs)])
LAYOUT = {"Gray8": _l("y", 1), "Gray16": _l("y", 2), "RGB5": _l("p", 2), "RGB565": _l("p", 2), "RGB8": _l("bgr", 1), "RGB16": _l("rgb", 2), "RGBF": _l("rgb", 4),
          "RGBA8": _l("bgra", 1), "RGBA16": _l("rgba", 2), "RGBAF": _l("rgba", 4), "Int16": _l("y", 2), "UInt16": _l("y", 2), "Int32": _l("y", 4), "UInt32": _l("y", 4),
          "Float": _l("y", 4), "Double": _l("y", 8), "Complex": _l("ri", 8)}
def bytes_of(f): return sum(s for _, _, s in LAYOUT[f][1])
GRAY = ("Gray8", "Gray16", "Float", "Double")
INTS = {"Int16": (16, True), "UInt16": (16, False), "Int32": (32, True), "UInt32": (32, False)}
FIT = {"Gray8": "BITMAP", "Gray16": "UINT16", "RGB5": "BITMAP", "RGB565": "BITMAP", "RGB8": "BITMAP", "RGB16": "RGB16", "RGBF": "RGBF", "RGBA8": "BITMAP", "RGBA16": "RGBA16",
       "RGBAF": "RGBAF", "Int16": "INT16", "UInt16": "UINT16", "Int32": "INT32", "UInt32": "UINT32", "Float": "FLOAT", "Double": "DOUBLE", "Complex": "COMPLEX"}

# ---------------------------------------------------------------- specification of the pixel formats
def z32(v): return v if v.w == 32 else T.zext(v, 32)
def fromui(v): return T.fp("fp.fromui", [z32(v)], 64)
def fromsi(v): return T.fp("fp.fromsi", [v if v.w == 32 else T.sext(v, 32)], 64)
def div(a, b): return T.fp("fp.div", [a, F64(b)], 64)
def f32(v): return T.fp("fp.cvt", [v], 64)
ONE, ZERO = F64(1.0), F64(0.0)
def notnan(x): return T.not_(T.fp("fp.isnan", [x], 0))
def above(x): return T.fp("fp.lt", [T.fconst(float("-inf"), x.w), x], 0)      # a number, not minus infinity
def finite(x): return T.and_(above(x), T.fp("fp.lt", [x, T.fconst(float("inf"), x.w)], 0))
def abstract(fn):
    """proved with the colour functions as symbols; with their definitions if that fails (a change may have dissolved them)"""
    def go(res):
        r = run.UnitResult(res.name); r.inlined = res.inlined; ABS[0] = True
        try: fn(r)
        except X.Unsupported: r.failed = [1]
        finally: ABS[0] = False
        if r.failed: return fn(res)
        res.__dict__.update(r.__dict__)
    return go
def split(f, px):
    """bit fields of a 16-bit colour"""
    if f == "RGB5": return T.extract(px, 14, 10), T.extract(px, 9, 5), T.extract(px, 4, 0)
    return T.extract(px, 15, 11), T.extract(px, 10, 5), T.extract(px, 4, 0)
def decode(f, rd):
    """the colour (r, g, b, a) stored in a pixel; rd(offset, size) reads the pixel's bytes"""
    at = {c: rd(o, s) for c, o, s in LAYOUT[f][1]}
    if f in ("Gray8", "Gray16"): y = div(fromui(at["y"]), 255.0 if f == "Gray8" else 65535.0); return [y, y, y, ONE]
    if f in ("RGB5", "RGB565"):
        r, g, b = split(f, at["p"]); return [div(fromui(r), 31.0), div(fromui(g), 31.0 if f == "RGB5" else 63.0), div(fromui(b), 31.0), ONE]
    if f in ("RGB8", "RGBA8", "RGB16", "RGBA16"):
        m = 255.0 if f.endswith("8") else 65535.0
        return [div(fromui(at[c]), m) if c in at else ONE for c in "rgba"]
    if f in ("RGBF", "RGBAF"): return [f32(at[c]) if c in at else ONE for c in "rgba"]
    if f in INTS: y = (fromsi if INTS[f][1] else fromui)(at["y"]); return [y, y, y, ONE]
    if f == "Float": y = f32(at["y"]); return [y, y, y, ONE]
    if f == "Double": return [at["y"]] * 3 + [ONE]
    if f == "Complex": return [at["r"], at["i"], ZERO, ONE]
def lt(a, b): return T.fp("fp.lt", [a, b], 0)
def clamp(v, lo, hi):
    lo, hi = F64(lo), F64(hi)
    return T.ite(lt(v, lo), lo, T.ite(lt(hi, v), hi, v))
def unorm(v, bits, w=None):
    m = T.fp("fp.mul", [clamp(v, 0.0, 1.0), F64(float(2 ** bits - 1))], 64)
    return T.extract(T.fp("fp.toui", [T.fp("fp.round", [m], 64, "RNA")], 32), (w or bits) - 1, 0)
def toint(v, bits, signed):
    c = clamp(v, -float(2 ** (bits - 1)) if signed else 0.0, float(2 ** (bits - (1 if signed else 0)) - 1))
    r = T.fp("fp.tosi" if signed else "fp.toui", [c], 32)
    return r if bits == 32 else T.extract(r, bits - 1, 0)
def tof32(v): return T.fp("fp.cvt", [v], 32)
ABS = [False]      # the colour functions as symbols of their contracts (proved in unit_color), or written out
def lum(r, g, b):
    if ABS[0]: return T.uf("luminance", [r, g, b], 64)
    mul = lambda a, k: T.fp("fp.mul", [a, F64(k)], 64)
    add = lambda a, b: T.fp("fp.add", [a, b], 64)
    return add(add(mul(r, 0.2126), mul(g, 0.7152)), mul(b, 0.0722))
# bounds that follow from the formulas (proved in unit_color)
def _bound(arg, res): return lambda p: (-res, res) if all(-arg <= a and b <= arg for a, b in p) else None
T.UF_RANGE.update({"luminance": _bound(1e300, 2e300), "linear of sRGB": _bound(2.0 ** 129, 1e100), "sRGB of linear": _bound(1e300, 1e302)})
def pow_(a, b): return T.uf("pow", [a, F64(b)], 64)
def to_linear(c): return T.uf("linear of sRGB", [c], 64) if ABS[0] else T.ite(T.fp("fp.le", [c, F64(0.04045)], 0), div(c, 12.92), pow_(div(T.fp("fp.add", [c, F64(0.055)], 64), 1.055), 2.4))
def to_srgb(c):
    if ABS[0]: return T.uf("sRGB of linear", [c], 64)
    return T.ite(T.fp("fp.le", [c, F64(0.0031308)], 0), T.fp("fp.mul", [c, F64(12.92)], 64),
                 T.fp("fp.sub", [T.fp("fp.mul", [pow_(c, 1.0 / 2.4), F64(1.055)], 64), F64(0.055)], 64))
def encode(f, c):
    """[(offset, size, bytes)] of a pixel that stores colour c; the red channel where there is only one"""
    r, g, b, a = c; ch = dict(r=r, g=g, b=b, a=a, y=r, i=g)
    if f in ("Gray8", "Gray16", "RGB8", "RGBA8", "RGB16", "RGBA16"): fn = lambda role, s: unorm(ch[role], 8 * s)
    elif f in ("RGB5", "RGB565"):
        # the values fit their fields (unit_color)
        sh = lambda v, bits, n: T.shl(T.zext(unorm(v, bits, 8), 32), C32(n))
        fn = lambda role, s: T.extract(T.bvor(T.bvor(sh(r, 5, 10 if f == "RGB5" else 11), sh(g, 5 if f == "RGB5" else 6, 5)), sh(b, 5, 0)), 15, 0)
    elif f in INTS: fn = lambda role, s: toint(r, *INTS[f])
    elif f in ("RGBF", "RGBAF", "Float"): fn = lambda role, s: tof32(ch[role])
    else: fn = lambda role, s: ch[role]
    return [(o, s, fn(role, s)) for role, o, s in LAYOUT[f][1]]
def gray_of(f, srgb, c):
    """the colour a gray format stores for c: its luminance, computed in linear space"""
    if f not in GRAY: return c
    y = to_srgb(lum(*[to_linear(x) for x in c[:3]])) if srgb else lum(*c[:3])
    return [y, y, y, c[3]]

# ---------------------------------------------------------------- extraction
NOIN = [r"^cuttlefish::(toGrayscale|sRGBToLinear|linearToSRGB)\(double", r"^std::unique_ptr<cuttlefish::Image::Impl.*::(reset|~unique_ptr)", r"^cuttlefish::Image::(~?Image|reset|initialize|operator=|isValid|operator bool|width|height|format|colorSpace|convert|changeColorSpace|resize|getPixel|setPixel)\(", r"^std::basic_(ios|ostream|ofstream|ifstream|fstream|iostream|istream|filebuf|streambuf|stringbuf|stringstream|ostringstream)<.*>::", r"^std::ios_base::", r"^std::__cxx11::basic_(stringbuf|stringstream|ostringstream)<.*>::"]
_m = {}
def modules():
    if "P" not in _m:
        _m["P"] = X.Program([build.ir("lib/src/Image.cpp", NOIN)]); modules_enums()
    return _m["P"]
def modules_enums():
    if 1:
        items = ["Image::Format::" + f for f in FMTS + ["Invalid"]] + ["ColorSpace::Linear", "ColorSpace::sRGB"] + ["Image::RotateAngle::" + a for a in ("CW90", "CW180", "CW270", "CCW90", "CCW180", "CCW270")] + \
                ["Image::Channel::" + c for c in ("Red", "Green", "Blue", "Alpha", "None")] + ["Image::NormalOptions::" + c for c in ("Default", "KeepSign", "WrapX", "WrapY")] + ["Image::ResizeFilter::" + c for c in ("Box", "Linear", "Cubic", "CatmullRom", "BSpline")]
        items += ["FILTER_BOX", "FILTER_BILINEAR", "FILTER_BICUBIC", "FILTER_CATMULLROM", "FILTER_BSPLINE"] + ["FIT_" + t for t in sorted(set(FIT.values()))] + ["FIC_PALETTE", "FIC_MINISBLACK", "FIC_RGB"]
        _m["e"] = build.enum_values(["cuttlefish/Image.h", "FreeImage.h"], items)
def E(n): modules(); return _m["e"][n]
def fmt(n): return E("Image::Format::" + n)
def find(rx):
    P = modules()
    r = [n for n, d in P.dem.items() if re.search(rx, d) and n in P.funcs]
    if len(r) > 1: r = [n for n in r if "C2" in n] or r       # complete / base constructors are the same code
    if len(r) != 1: raise X.Unsupported("function %s: %d candidates" % (rx, len(r)))
    return P.funcs[r[0]]
def call(ex, st, rx, args):
    f = find(rx); fr = X.Frame(f, ex.prog.cfg(f))
    if len(args) != len(f.params): raise X.Unsupported("signature of " + f.name)
    r = ex.run_function(fr, st.fork(), args)
    if r is None: raise X.Unsupported("does not return: " + rx)
    return r
class Fr:
    def __init__(self): self.mod = modules().modules[0]

# ---------------------------------------------------------------- FreeImage
class Bitmap:
    """what is known about a bitmap: library format, size; `src` the state its contents were copied from"""
    def __init__(self, name, f, w, h): self.name = name; self.f = f; self.w = w; self.h = h; self.base = X.Base(name); self.bits = "bits:" + name; self.src = None; self.idx = None
MASKS = {"RGB5": (0x7C00, 0x03E0, 0x001F), "RGB565": (0xF800, 0x07E0, 0x001F), "RGB8": (0xFF0000, 0xFF00, 0xFF), "RGBA8": (0xFF0000, 0xFF00, 0xFF)}
BPP = {f: 8 * bytes_of(f) for f in FMTS}
SMAX = (1 << 31) - 1
class Lib:
    """the contracts of FreeImage"""
    def __init__(self, ex, alloc_fails=True):
        self.ex = ex; self.bm = {}; self.n = 0; self.alloc_fails = alloc_fails; self.flips = []; self.result_of = None; self.maxabs = None; self.u16 = False; self.rot_ok = None; self.scale_ok = None
        C = lambda rx, h: ex.contracts.append((re.compile(rx), h))
        C(r"^FreeImage_AllocateT$", self.allocate)
        C(r"^FreeImage_GetScanLine$", self.scanline); C(r"^FreeImage_Unload$", self.unload); C(r"^FreeImage_Clone$", self.clone)
        for n, h in (("Width", lambda b: b.w), ("Height", lambda b: b.h), ("BPP", lambda b: C32(BPP[b.f])), ("RedMask", lambda b: C32(MASKS.get(b.f, (0, 0, 0))[0])), ("GreenMask", lambda b: C32(MASKS.get(b.f, (0, 0, 0))[1])),
                     ("BlueMask", lambda b: C32(MASKS.get(b.f, (0, 0, 0))[2])), ("ImageType", lambda b: C32(E("FIT_" + FIT[b.f])))): C(r"^FreeImage_Get%s$" % n, self.attr(n, h))
        C(r"^FreeImage_GetColorType$", self.colortype); C(r"^FreeImage_IsTransparent$", lambda *a: X.fresh("transparent", 32))
        C(r"^FreeImage_ConvertTo(8Bits|Type|16Bits555|16Bits565|24Bits|32Bits|RGB16|RGBA16|RGBF|RGBAF)$", self.convert)
        C(r"^FreeImage_Rotate$", self.rotate); C(r"^FreeImage_Flip(Horizontal|Vertical)$", self.flip); C(r"^FreeImage_Rescale$", self.rescale)
        C(r"^FreeImage_(Initialise|DeInitialise)$", lambda *a: None)
        C(r"^pow$", lambda ex, fr, st, ins, dem, v: T.uf("pow", v, 64)); C(r"^sqrt$", lambda ex, fr, st, ins, dem, v: T.fp("fp.sqrt", [v[0]], 64))
        C(r"^__cxa_guard_acquire$", lambda *a: X.fresh("guard", 32)); C(r"^__cxa_(guard_release|atexit)$", lambda *a: C32(0))
        C(r"^operator new\(unsigned long\)$", self.opnew); C(r"^operator delete\(", self.opdel)
        if ABS[0]:
            C(r"^cuttlefish::toGrayscale\(double, double, double\)$", self.colour(lum, above, notnan)); C(r"^cuttlefish::sRGBToLinear\(double\)$", self.colour(to_linear, above, above))
            C(r"^cuttlefish::linearToSRGB\(double\)$", self.colour(to_srgb, notnan, notnan))
    def colour(self, f, pre, post):
        def go(ex, fr, st, ins, dem, v):
            ex.oblige(st, "precondition of " + dem, T.and_(*[pre(a) for a in v]), "pre"); r = f(*v); self.assume(post(r)); return r
        return go
    def assume(self, a):
        if a is not T.TRUE and all(a is not z for z in self.ex.assumptions): self.ex.assumptions.append(a)
    def make(self, f, w, h, st=None):
        if f == "Gray16" and self.u16: f = "UInt16"      # the same bitmap type
        self.n += 1; b = Bitmap("bm%d" % self.n, f, w, h); self.bm[b.name] = b; ex = self.ex
        ex.arrays.add(b.bits); bp = bytes_of(f)
        ex.sizes[b.bits] = lambda base, b=b: T.mulc(T.zext(b.w, 64), bp)
        ex.init_hooks[b.bits] = lambda ex, base, off, size, ty, b=b: self.content(b, base, off, size)
        if st is not None: ex.write(st, b.base, Z64, 1, T.const(1, 8))
        return b
    def content(self, b, base, off, size):
        """the bytes a bitmap was made with"""
        if b.src is not None:
            st, o = b.src; y, off = b.idx(base.idx[0], off) if b.idx else (base.idx[0], off)
            return self.ex.read(st, X.Base(o.bits, (y,)), off, size, ("int", 8 * size))
        g = LAYOUT[b.f][0]; u = lambda o: self.nonan(b, T.uf("px:" + b.name, [base.idx[0], o], 8 * g))
        if size == g: return u(off)
        if size > g and size % g == 0:
            r = u(off)
            for i in range(1, size // g): r = T.concat(u(T.add(off, C64(i * g))), r)
            return r
        q = loops.divc(off, g)
        if q is None or size > g or q[1] + size > g: raise X.Unsupported("odd access to pixels")
        return T.extract(u(T.sub(off, C64(q[1]))), 8 * (q[1] + size) - 1, 8 * q[1])
    def nonan(self, b, u):
        if b.f in ("RGBF", "RGBAF", "Float", "Double", "Complex"):
            self.assume(finite(u)); m = 3.4028234663852886e38 if u.w == 32 else 1.7976931348623157e308
            if self.maxabs and u.w == 64: m = self.maxabs; self.assume(T.fp("fp.le", [T.fp("fp.abs", [u], 64), F64(m)], 0))
            T.FPFACTS[u.id] = (-m, m)
        return u
    def of(self, st, p, what):
        """[(condition, bitmap)]; obliges that the pointer denotes a bitmap that has not been released"""
        out = []
        for c, b, o in p.cases:
            if b is None or b.name not in self.bm:
                self.ex.oblige(st, "%s: called with a bitmap" % what, T.not_(c), "pre"); continue
            s = st.fork(); s.pc = T.and_(st.pc, c)
            if s.pc is T.FALSE: continue
            live = self.ex.read(s, b, Z64, 1, ("int", 8))
            self.ex.oblige(s, "%s: the bitmap has not been released" % what, T.eq(live, T.const(1, 8)), "pre")
            out.append((c, self.bm[b.name]))
        if not out: raise X.Unsupported("no bitmap")
        return out
    def attr(self, n, h):
        def go(ex, fr, st, ins, dem, v):
            r = None
            for c, b in self.of(st, v[0], "FreeImage_Get" + n): r = h(b) if r is None else T.ite(c, h(b), r)
            return r
        return go
    def colortype(self, ex, fr, st, ins, dem, v):
        # bitmaps this library creates or converts are never palettised
        return self.attr("ColorType", lambda b: C32(E("FIC_MINISBLACK" if len(LAYOUT[b.f][1]) == 1 and b.f not in ("RGB5", "RGB565") else "FIC_RGB")))(ex, fr, st, ins, dem, v)
    def result(self, b, ok): return X.Ptr([(ok, b.base, Z64), (T.not_(ok), None, Z64)]) if ok is not T.TRUE else X.ptr(b.base)
    def allocate(self, ex, fr, st, ins, dem, v):
        ty, w, h, bpp, rm, gm, bm = v
        if not (T.isc(ty) and T.isc(bpp) and T.isc(gm)): raise X.Unsupported("allocation of a bitmap of unknown type")
        c = [f for f in FMTS if E("FIT_" + FIT[f]) == ty.x and (FIT[f] != "BITMAP" or (BPP[f] == bpp.x and (f not in ("RGB5", "RGB565") or (rm.x, gm.x, bm.x) == MASKS[f])))]
        if not c: raise X.Unsupported("allocation of an unknown bitmap type")
        b = self.make(c[0], w, h, st)
        ok = T.and_(T.ult(T.sub(w, C32(1)), C32(SMAX)), T.ult(T.sub(h, C32(1)), C32(SMAX)))
        if self.alloc_fails: ok = T.and_(ok, T.var("alloc:" + b.name, 0))
        else: ex.assumptions.append(ok); ok = T.TRUE
        return self.result(b, ok)
    def scanline(self, ex, fr, st, ins, dem, v):
        out = []
        for c, b in self.of(st, v[0], "FreeImage_GetScanLine"):
            s = st.fork(); s.pc = T.and_(st.pc, c)
            ex.oblige(s, "precondition of FreeImage_GetScanLine: row < height", T.ult(v[1], b.h), "pre")
            out.append((c, X.Base(b.bits, (v[1],)), Z64))
        return X.Ptr(out if len(out) > 1 else [(T.TRUE,) + out[0][1:]])
    def unload(self, ex, fr, st, ins, dem, v):
        # releasing nothing is allowed
        cs = [x for x in v[0].cases if x[1] is not None]
        if not cs: return None
        s = st.fork(); s.pc = T.and_(st.pc, T.or_(*[c for c, b, o in cs]))
        for c, b in self.of(s, X.Ptr(cs), "FreeImage_Unload"): ex.write(st, b.base, Z64, 1, T.const(0, 8), fr.mod, T.and_(c))
    def one(self, st, p, what):
        r = self.of(st, p, what)
        if len(r) != 1: raise X.Unsupported("%s of several bitmaps" % what)
        return r[0][1]
    def clone(self, ex, fr, st, ins, dem, v):
        o = self.one(st, v[0], "FreeImage_Clone"); b = self.make(o.f, o.w, o.h, st); b.src = (st.fork(), o)
        return self.result(b, T.var("clone:" + b.name, 0) if self.alloc_fails else T.TRUE)
    TO = {"8Bits": "Gray8", "16Bits555": "RGB5", "16Bits565": "RGB565", "24Bits": "RGB8", "32Bits": "RGBA8", "RGB16": "RGB16", "RGBA16": "RGBA16", "RGBF": "RGBF", "RGBAF": "RGBAF"}
    def convert(self, ex, fr, st, ins, dem, v):
        o = self.one(st, v[0], dem); n = dem[len("FreeImage_ConvertTo"):]
        if n == "Type":
            if not T.isc(v[1]): raise X.Unsupported("conversion to an unknown type")
            f = [x for x in ("Gray16", "Int16", "Int32", "UInt32", "Float", "Double", "Complex", "RGB16", "RGBA16", "RGBF", "RGBAF") if E("FIT_" + FIT[x]) == v[1].x]
            if not f: raise X.Unsupported("FreeImage_ConvertToType")
            f = f[0]
        else: f = self.TO[n]
        b = self.make(f, o.w, o.h, st); b.converted = o
        return self.result(b, T.var("convert:" + b.name, 0))
    def rotate(self, ex, fr, st, ins, dem, v):
        o = self.one(st, v[0], "FreeImage_Rotate"); a = v[1]
        if not T.isc(a): raise X.Unsupported("rotation by an unknown angle")
        deg = T.b2f(a.x, 64)
        if deg not in (0.0, 90.0, 180.0, 270.0): raise X.Unsupported("rotation by %r" % deg)
        bp = bytes_of(o.f); sw = deg in (90.0, 270.0)
        b = self.make(o.f, o.h if sw else o.w, o.w if sw else o.h, st); b.src = (st.fork(), o)
        def idx(y, off):
            # rows are stored bottom-up; positive angles turn counter-clockwise
            q = loops.divc(off, bp)
            if q is None: raise X.Unsupported("odd access to a rotated bitmap")
            x = q[0]; y64 = T.zext(y, 64); W, H = T.zext(o.w, 64), T.zext(o.h, 64)
            one = C64(1)
            if deg == 90.0: sx, sy = y64, T.sub(T.sub(H, one), x)
            elif deg == 180.0: sx, sy = T.sub(T.sub(W, one), x), T.sub(T.sub(H, one), y64)
            elif deg == 270.0: sx, sy = T.sub(T.sub(W, one), y64), x
            else: sx, sy = x, y64
            return loops.fit(sy, 32), T.add(T.mulc(sx, bp), C64(q[1]))
        b.idx = idx
        return self.result(b, T.var("rotate:" + b.name, 0) if self.rot_ok is None else self.rot_ok)
    def rescale(self, ex, fr, st, ins, dem, v):
        o = self.one(st, v[0], "FreeImage_Rescale")
        # 16-bit colours come back as 24-bit ones
        b = self.make("RGB8" if o.f in ("RGB5", "RGB565") else o.f, v[1], v[2], st); b.rescaled = (o, v[3], st.fork())
        return self.result(b, T.var("rescale:" + b.name, 0) if self.scale_ok is None else self.scale_ok)
    def flip(self, ex, fr, st, ins, dem, v):
        o = self.one(st, v[0], dem); st.trace.append(X.Event(dem, (o.base,)))
        self.flips.append((st.pc, dem, o)); st.ghost["flips"] = st.ghost.get("flips", ()) + ((dem, o.name),)
        self.result_of = X.fresh("flipped", 32); return self.result_of
    def opnew(self, ex, fr, st, ins, dem, v):
        self.n += 1; b = X.Base("impl%d" % self.n); ex.sizes[b.name] = lambda b, sz=v[0]: sz
        return X.ptr(b)
    def opdel(self, ex, fr, st, ins, dem, v): return None

# ---------------------------------------------------------------- an image in an arbitrary state
class World:
    """an image of the given format with arbitrary size, colour space and contents"""
    def __init__(self, f, alloc_fails=False, cs=None):
        self.P = modules(); self.ex = X.Executor(self.P); self.lib = Lib(self.ex, alloc_fails); self.f = f
        self.W, self.H = T.var("width", 32), T.var("height", 32); self.cs = cs if cs is not None else T.var("colorSpace", 32)
        if cs is None: self.ex.assumptions.append(T.or_(T.eq(self.cs, C32(E("ColorSpace::Linear"))), T.eq(self.cs, C32(E("ColorSpace::sRGB")))))
        T.FACTS[self.W.id] = SMAX; T.FACTS[self.H.id] = SMAX
        self.img = X.ptr(X.Base("image")); st = X.State()
        self.ex.write(st, X.Base("image"), Z64, 8, X.NULL)
        self.st, self.ok = call(self.ex, st, r"^cuttlefish::Image::initialize\(", [self.img, C32(fmt(f)), self.W, self.H, self.cs])
        if self.ok.w: self.ok = T.ne(self.ok, T.const(0, self.ok.w))
        self.bm = self.lib.bm.get("bm1")
    def raw(self, st, bm, x, y, f=None):
        """reader of the pixel at column x of the y-th stored row"""
        bp = bytes_of(f or self.f)
        return lambda o, s: self.ex.read(st, X.Base(bm.bits, (y,)), T.add(T.mulc(T.zext(x, 64), bp), C64(o)), s, ("int", 8 * s))
    def row(self, y): return T.sub(T.sub(self.H, y), C32(1))      # y counts from the top, rows are stored from the bottom
SRGB = lambda: C32(E("ColorSpace::sRGB"))
def color(ex, st, name="color"):
    """a finite colour argument"""
    b = X.Base(name); vs = []
    for i, c in enumerate("rgba"):
        v = T.var(name + "." + c, 64); vs.append(v); ex.write(st, b, C64(8 * i), 8, v); ex.assumptions.append(finite(v))
    return X.ptr(b), vs
def tbool(v): return v if v.w == 0 else T.ne(v, T.const(0, v.w))

def unit_color(res):
    """the colour functions compute their formulas, and never NaN from numbers"""
    w = World("RGBA8"); ex, st = w.ex, w.st; c = [T.var(n, 64) for n in "rgb"]
    ex.assumptions += [above(v) for v in c]
    def powc(ex, fr, st, ins, dem, v):
        ex.oblige(st, "pow: the base is not negative", T.fp("fp.le", [ZERO, v[0]], 0), "pre"); r = T.uf("pow", v, 64); ex.assumptions.append(T.fp("fp.le", [ZERO, r], 0)); return r
    ex.contracts.insert(0, (re.compile("^pow$"), powc))
    for n, a, spec, post in (("toGrayscale", c, lum, notnan), ("sRGBToLinear", c[:1], to_linear, above), ("linearToSRGB", c[:1], to_srgb, notnan)):
        s, r = call(ex, st, r"^cuttlefish::%s\(double" % n, a)
        ex.oblige(s, n + ": the documented formula", T.eq(r, spec(*a)), "post", a); ex.oblige(s, n + ": a number", post(r), "post", a)
        res.functions.append(n)
    within = lambda x, m: T.and_(T.fp("fp.le", [F64(-m), x], 0), T.fp("fp.le", [x, F64(m)], 0))
    def powb(ex, fr, st, ins, dem, v):
        r = T.uf("pow", v, 64); ex.assumptions += [T.fp("fp.le", [ZERO, r], 0)]
        for e, a, b in ((2.4, 2.0 ** 130, 1e99), (1.0 / 2.4, 1e300, 1e126)):
            if T.isc(v[1]) and T.b2f(v[1].x, 64) == e: ex.assumptions.append(T.implies(T.and_(T.fp("fp.le", [ZERO, v[0]], 0), T.fp("fp.le", [v[0], F64(a)], 0)), T.fp("fp.le", [r, F64(b)], 0)))
        return r
    ex.contracts.insert(0, (re.compile("^pow$"), powb))
    for n, a, arg, out in (("toGrayscale", c, 1e300, 2e300), ("sRGBToLinear", c[:1], 2.0 ** 129, 1e100), ("linearToSRGB", c[:1], 1e300, 1e302)):
        q = st.fork(); q.pc = T.and_(*[within(v, arg) for v in a])
        s, r = call(ex, q, r"^cuttlefish::%s\(double" % n, a)
        ex.oblige(s, n + ": bounded", within(r, out), "post", a)
    v = T.var("v", 64); st.pc = finite(v)
    for bits in (5, 6): ex.oblige(st, "a %d-bit channel fits its field" % bits, T.ult(T.zext(unorm(v, bits, 8), 16), T.const(1 << bits, 16)), "lemma", (v,))
    run.discharge_into(res, ex.obs, c); run.collect(res, ex)
def unit_set(f, srgb, gray):
    def go(res):
        w = World(f, cs=C32(E("ColorSpace::sRGB" if srgb else "ColorSpace::Linear"))); ex, st = w.ex, w.st
        x, y, x2, y2 = (T.var(n, 32) for n in ("x", "y", "x2", "y2"))
        ptr, c = color(ex, st); ins = [w.W, w.H, x, y] + c
        s, r = call(ex, st, r"^cuttlefish::Image::setPixel\(", [w.img, x, y, ptr, T.const(int(gray), 0)])
        inr = T.and_(T.ult(x, w.W), T.ult(y, w.H))
        n = "setPixel %s%s%s" % (f, " sRGB" if srgb else "", "" if gray else " (red channel)")
        ex.oblige(s, n + ": accepted exactly inside the image", T.iff(tbool(r), inr), "post", ins)
        want = encode(f, gray_of(f, srgb, c) if gray else c); bp = bytes_of(f)
        q = s.fork(); q.pc = T.and_(s.pc, inr)
        for o, z, v in want:
            got = w.raw(q, w.bm, x, w.row(y))(o, z)
            if f in INTS: inputs = ins
            ex.oblige(q, n + ": byte %d of the pixel" % o, T.eq(got, v), "post", ins)
        # every other pixel is unchanged
        q = s.fork(); q.pc = T.and_(s.pc, T.ult(x2, w.W), T.ult(y2, w.H), T.or_(T.ne(x, x2), T.ne(y, y2), T.not_(inr)))
        for role, o, z in LAYOUT[f][1]:
            ex.oblige(q, n + ": every other pixel is unchanged", T.eq(w.raw(q, w.bm, x2, w.row(y2))(o, z), w.raw(st, w.bm, x2, w.row(y2))(o, z)), "frame", ins + [x2, y2])
        observers(w, s, n)
        res.functions += ["Image::setPixel", "setPixelImpl", "setPixelNoGrayscaleImpl"]
        run.discharge_into(res, ex.obs, ins); run.collect(res, ex)
    return go
def observers(w, s, n, f=None, W=None, H=None, cs=None, img=None):
    img = img or w.img
    for m, want in (("width", W if W is not None else w.W), ("height", H if H is not None else w.H), ("format", C32(fmt(f or w.f))), ("colorSpace", cs if cs is not None else w.cs)):
        _, r = call(w.ex, s, r"^cuttlefish::Image::%s\(\) const$" % m, [img])
        w.ex.oblige(s, n + ": %s()" % m, T.eq(r, want), "post", (w.W, w.H))
def unit_get(f):
    def go(res):
        w = World(f); ex, st = w.ex, w.st
        x, y = T.var("x", 32), T.var("y", 32); ins = [w.W, w.H, x, y]
        out = X.ptr(X.Base("out")); old = [T.var("old." + c, 64) for c in "rgba"]
        for i in range(4): ex.write(st, X.Base("out"), C64(8 * i), 8, old[i])
        s, r = call(ex, st, r"^cuttlefish::Image::getPixel\(", [w.img, out, x, y])
        inr = T.and_(T.ult(x, w.W), T.ult(y, w.H))
        ex.oblige(s, "getPixel %s: accepted exactly inside the image" % f, T.iff(tbool(r), inr), "post", ins)
        want = decode(f, w.raw(st, w.bm, x, w.row(y)))
        for i, c in enumerate("rgba"):
            g = ex.read(s, X.Base("out"), C64(8 * i), 8, ("float", 64))
            ex.oblige(s, "getPixel %s: channel %s" % (f, c), T.implies(inr, T.eq(g, want[i])), "post", ins)
        for m in ("scanline(unsigned int)", "scanline(unsigned int) const"):
            s, p = call(ex, st, "^cuttlefish::Image::" + re.escape(m) + "$", [w.img, y])
            isnull = X.ptr_is_null(p)
            ex.oblige(s, "scanline: null exactly outside the image", T.iff(isnull, T.not_(T.ult(y, w.H))), "post", ins)
            ex.oblige(s, "scanline: the addressed row of this image", T.and_(*[T.implies(c, T.and_(T.eq(o, Z64), T.eq(b.idx[0], w.row(y))) if b.name == w.bm.bits else T.FALSE) for c, b, o in p.cases if b is not None]), "post", ins)
        for mm in loops_writes(st, s, w): ex.oblige(s, "getPixel %s: writes nothing else (%s)" % (f, mm), T.FALSE, "frame")
        observers(w, st, f)
        res.functions += ["Image::getPixel", "getPixelImpl", "Image::scanline", "Image::initialize", "getFreeImageFormat", "Image::Impl::create"]
        run.discharge_into(res, ex.obs, ins); run.collect(res, ex)
    return go
def _same(a, b):
    if a is b or a == b: return True
    if isinstance(a, tuple) and isinstance(b, tuple): return len(a) == len(b) and all(_same(x, y) for x, y in zip(a, b))
    if isinstance(a, X.Ptr) and isinstance(b, X.Ptr): return len(a.cases) == len(b.cases) and all((p[0] is q[0] or len(a.cases) == 1) and (p[1] is q[1] or (p[1] is not None and q[1] is not None and p[1].name == q[1].name and p[1].idx == q[1].idx)) and p[2] is q[2] for p, q in zip(a.cases, b.cases))
    return False
def loops_writes(a, b, w, ok=("out",)):
    """memory that differs between two states, other than the given regions and locals"""
    out = []
    for n in b.mem:
        if n in ok or n.startswith(("alloca", "stk", "a:")): continue
        x, y = a.mem.get(n), b.mem[n]
        if x is y: continue
        if x is not None and (x.log or None) == (y.log or None) and set(x.cells) == set(y.cells) and all(_same(x.cells[k], y.cells[k]) for k in y.cells): continue
        if x is None and not y.cells and not y.log: continue
        out.append(n)
    return out
def unit_invalid(res):
    """pixel access on an invalid image"""
    w = World("RGBA8"); ex = w.ex; st = X.State(); img = X.ptr(X.Base("none")); ex.write(st, X.Base("none"), Z64, 8, X.NULL)
    ptr, c = color(ex, st); x, y = T.var("x", 32), T.var("y", 32)
    for i in range(4): ex.write(st, X.Base("out"), C64(8 * i), 8, T.var("old%d" % i, 64))
    for n, rx, a in (("setPixel", r"^cuttlefish::Image::setPixel\(", [img, x, y, ptr, T.var("gray", 0)]), ("getPixel", r"^cuttlefish::Image::getPixel\(", [img, X.ptr(X.Base("out")), x, y])):
        s, r = call(ex, st, rx, a)
        ex.oblige(s, n + " on an invalid image fails", T.not_(tbool(r)), "post", (x, y))
        for m in loops_writes(st, s, w, ()): ex.oblige(s, n + " on an invalid image writes %s" % m, T.FALSE, "frame")
    for m in ("scanline(unsigned int)", "scanline(unsigned int) const"):
        s, p = call(ex, st, "^cuttlefish::Image::" + re.escape(m) + "$", [img, y]); ex.oblige(s, "scanline of an invalid image is null", X.ptr_is_null(p), "post", (y,))
    for m, want in (("width", 0), ("height", 0), ("format", fmt("Invalid"))):
        s, r = call(ex, st, r"^cuttlefish::Image::%s\(\) const$" % m, [img]); ex.oblige(s, "%s() of an invalid image" % m, T.eq(r, C32(want)), "post")
    s, r = call(ex, st, r"^cuttlefish::Image::isValid\(\) const$", [img]); ex.oblige(s, "isValid() of an invalid image", T.not_(tbool(r)), "post")
    run.discharge_into(res, ex.obs, (x, y)); run.collect(res, ex)
def unit_trip(res):
    """decode after encode: every quantum is kept, and no channel moves by more than half a quantum (all the points where the rounding
    steps are tried; between them both functions are monotone, and the stored value is constant)"""
    import math
    from vc import smt
    n = bad = 0
    for bits in (5, 6, 8, 16):
        M = (1 << bits) - 1; q = lambda v: _rnd(min(max(v, 0.0), 1.0) * M)
        for k in range(M + 1):
            v = k / M; n += 1
            if q(v) != k: bad += 1
            if k:
                # the step between k-1 and k: the smallest double stored as k
                h = (k - 0.5) / M
                while q(h) >= k: h = math.nextafter(h, -1.0)
                while q(h) < k: h = math.nextafter(h, 2.0)
                lo = math.nextafter(h, -1.0); tol = 0.5 / M * (1 + 1e-9)
                if abs(h - v) > tol or abs(lo - (k - 1) / M) > tol: bad += 1
    run.discharge_into(res, [_ob("a stored channel is within half a quantum, and every quantum is kept (%d quanta enumerated)" % n, T.const(int(bad == 0), 0))])
def _rnd(x):
    import math
    f = math.floor(x); return f + 1 if x - f >= 0.5 else f
def _ob(name, goal):
    w = X.Executor(modules()); st = X.State(); w.oblige(st, name, goal, "lemma"); return w.obs[-1]
ASSUME = ["FreeImage does what its documentation says: AllocateT gives an image of the requested type and size or fails, GetScanLine gives row y from the bottom, Unload releases",
          "an image's rows do not overlap (FreeImage)", "colours given and stored in float formats are finite", "pow(a, b) of a non-negative a is not negative and not NaN; pow(a, 2.4) <= 1e99 up to a = 2^130 and pow(a, 1/2.4) <= 1e126 up to a = 1e300",
          "8-bit colours are stored blue, green, red, alpha, as on every little-endian FreeImage", "image sizes below 2^31 (FreeImage uses int)", "memory allocation succeeds"]

# ---------------------------------------------------------------- whole-image operations
def lum_of(srgb, c):
    return to_srgb(lum(*[to_linear(x) for x in c[:3]])) if srgb else lum(*c[:3])
def CS(srgb): return C32(E("ColorSpace::sRGB" if srgb else "ColorSpace::Linear"))
def check_pixels(w, before, after, f, bm, n, spec, ins, cond=T.TRUE, src=None):
    """every pixel of `bm` after the operation is the encoding of spec(the colour at its place before)"""
    x, y = T.var("px", 32), T.var("py", 32)
    q = after.fork(); q.pc = T.and_(after.pc, cond, T.ult(x, bm.w), T.ult(y, bm.h))
    want = spec(before, x, y)
    for o, z, v in want:
        g = w.raw(q, bm, x, y, f)(o, z)
        if f == "RGB5": g, v = T.extract(g, 14, 0), T.extract(v, 14, 0)      # the top bit has no meaning
        w.ex.oblige(q, "%s: byte %d of every pixel" % (n, o), T.eq(g, v), "post", ins + [x, y])
def unit_map(n, f, srgb, rx, args, fn, cs_after=None):
    """an operation that changes each pixel in place"""
    def go(res):
        w = World(f, cs=CS(srgb)); ex, st = w.ex, w.st
        a = args(); ins = [w.W, w.H] + [v for v in a if isinstance(v, T.T) and v.op == "var"]
        for v in a:
            if isinstance(v, T.T) and v.op == "var": ex.assumptions.append(T.ult(v, C32(5)))
        s, r = call(ex, st, rx, [w.img] + a)
        ex.oblige(s, n + ": succeeds", tbool(r), "post", ins)
        def spec(before, x, y): return same_bytes(f, w.raw(before, w.bm, x, y)) if fn is None else encode(f, fn(decode(f, w.raw(before, w.bm, x, y)), a))
        check_pixels(w, st, s, f, w.bm, n, spec, ins)
        observers(w, s, n, cs=cs_after)
        res.functions += ["Image::" + n.split()[0], "getPixelImpl", "setPixelNoGrayscaleImpl"]
        run.discharge_into(res, ex.obs, ins); run.collect(res, ex)
    return go
def same_bytes(f, rd): return [(o, z, rd(o, z)) for _, o, z in LAYOUT[f][1]]
def op_grayscale(f, srgb): return unit_map("grayscale " + f, f, srgb, r"^cuttlefish::Image::grayscale\(", lambda: [], lambda c, a: [lum_of(srgb, c)] * 3 + [c[3]])
def op_colorspace(f, srgb, to):
    g = (lambda x: x) if srgb == to else to_srgb if to else to_linear
    return unit_map("changeColorSpace " + f, f, srgb, r"^cuttlefish::Image::changeColorSpace\(", lambda: [CS(to)], None if srgb == to else lambda c, a: [g(x) for x in c[:3]] + [c[3]], CS(to))
def op_premultiply(f, srgb):
    def fn(c, a):
        m = lambda x: T.fp("fp.mul", [x, c[3]], 64)
        return [to_srgb(m(to_linear(x))) if srgb else m(x) for x in c[:3]] + [c[3]]
    return unit_map("preMultiplyAlpha " + f, f, srgb, r"^cuttlefish::Image::preMultiplyAlpha\(", lambda: [], fn if f in ("RGBA8", "RGBA16", "RGBAF") else None)
def op_swizzle(f):
    def fn(c, a):
        def sel(i, d):
            r = d
            for k in (3, 2, 1, 0): r = T.ite(T.eq(a[i], C32(k)), c[k], r)
            return r
        return [sel(0, ZERO), sel(1, ZERO), sel(2, ZERO), sel(3, ONE)]
    return unit_map("swizzle " + f, f, 0, r"^cuttlefish::Image::swizzle\(", lambda: [T.var("ch" + c, 32) for c in "rgba"], fn)
def pix(w, st, img, x, y, f, which=None):
    """reader of pixel (x, y) of an image through scanline(); y counts from the top"""
    _, p = call(w.ex, st, r"^cuttlefish::Image::scanline\(unsigned int\) const$", [img, y])
    cs = [(c, b, o) for c, b, o in p.cases if b is not None]
    bp = bytes_of(f)
    def rd(o, s):
        r = None
        for c, b, z in cs:
            v = w.ex.read(st, b, T.add(z, T.add(T.mulc(T.zext(x, 64), bp), C64(o))), s, ("int", 8 * s))
            r = v if r is None else T.ite(c, v, r)
        if r is None: raise X.Unsupported("no scanline")
        return r
    rd.ptr = p
    return rd
def valid(w, st, img):
    _, r = call(w.ex, st, r"^cuttlefish::Image::isValid\(\) const$", [img]); return tbool(r)
def coords(s, W, H, w):
    x, y = T.var("px", 32), T.var("py", 32)
    q = s.fork(); q.pc = T.and_(s.pc, T.ult(x, W), T.ult(y, H)); return q, x, y
def untouched(w, st, s, n, ok=("out",), names=None):
    for m in loops_writes(st, s, w, ok):
        if m.startswith(("bm", "bits:bm", "impl")) and m not in w.own: continue      # objects made by the operation
        w.ex.oblige(s, n + ": changes nothing else (%s)" % m, T.FALSE, "frame")
def own(w, st): w.own = {"image", "bm1", "bits:bm1", "impl2"} | {m for m in st.mem}
def op_rotate(f, angle, lib_ok):
    def go(res):
        w = World(f); ex, st = w.ex, w.st; w.lib.rot_ok = T.TRUE if lib_ok else T.FALSE; own(w, st)
        out = X.ptr(X.Base("out")); n = "rotate %s %s" % (f, angle)
        s, _ = call(ex, st, r"^cuttlefish::Image::rotate\(", [out, w.img, C32(E("Image::RotateAngle::" + angle))])
        q = {"CW90": 1, "CCW270": 1, "CW180": 2, "CCW180": 2, "CW270": 3, "CCW90": 3}[angle]
        W, H = (w.W, w.H) if q == 2 else (w.H, w.W); ins = [w.W, w.H]
        ex.oblige(s, n + ": succeeds", valid(w, s, out), "post", ins)
        observers(w, s, n, W=W, H=H, img=out)
        untouched(w, st, s, n)
        s2, x, y = coords(s, W, H, w)
        one = C32(1); fw, fh = (lambda v: T.sub(T.sub(w.W, one), v)), (lambda v: T.sub(T.sub(w.H, one), v))
        sx, sy = {1: (y, fh(x)), 2: (fw(x), fh(y)), 3: (fw(y), x)}[q]
        src = pix(w, s2, w.img, sx, sy, f); dst = pix(w, s2, out, x, y, f)
        # the library's rotation moves the bytes, the fallback stores the decoded colour again (the same bytes: "round trip")
        for o, z, v in (same_bytes(f, src) if lib_ok else encode(f, decode(f, src))):
            ex.oblige(s2, n + ": byte %d of every pixel" % o, T.eq(dst(o, z), v), "post", ins + [x, y])
        res.functions += ["Image::rotate", "Image::Impl::create"]
        run.discharge_into(res, ex.obs, ins); run.collect(res, ex)
    return go
def op_flip(f, d):
    def go(res):
        w = World(f); ex, st = w.ex, w.st; own(w, st); n = "flip%s %s" % (d, f)
        s, r = call(ex, st, r"^cuttlefish::Image::flip%s\(" % d, [w.img])
        fl = s.ghost.get("flips", ())
        ex.oblige(s, n + ": flips its own bitmap once in that direction", T.const(int(fl == (("FreeImage_Flip" + d, "bm1"),)), 0), "post")
        if w.lib.result_of: ex.oblige(s, n + ": reports the library's result", T.iff(tbool(r), T.ne(w.lib.result_of, C32(0))), "post")
        untouched(w, st, s, n); observers(w, s, n)
        res.functions.append("Image::flip" + d)
        run.discharge_into(res, ex.obs, [w.W, w.H]); run.collect(res, ex)
    return go
FLOATS = ("UInt16", "RGBF", "RGBAF", "Float")
def lib_may(src, dst, srgb, gray):
    """FreeImage's own conversion does what convert() documents: it normalises integers, clamps, and always takes the luminance of linear colours"""
    g = gray and dst in GRAY; lg = g and not srgb
    if src == "UInt16" or dst in ("UInt16", "Complex"): return False
    if dst in ("Gray8", "Gray16"): return lg or src in GRAY
    if dst == "Float": return (lg or src in GRAY) and src not in FLOATS
    if dst == "Double": return lg and src not in GRAY and src not in FLOATS
    if dst == "RGBF": return src not in FLOATS and src not in ("RGB5", "RGB565")
    if dst == "RGBAF": return src not in FLOATS
    return True
def convert_one(res, src, dst, srgb, gray):
    w = World(src, cs=CS(srgb)); ex, st = w.ex, w.st; own(w, st); out = X.ptr(X.Base("out"))
    n = "convert %s to %s%s%s" % (src, dst, " sRGB" if srgb else "", " gray" if gray else ""); ins = [w.W, w.H]
    s, _ = call(ex, st, r"^cuttlefish::Image::convert\(", [out, w.img, C32(fmt(dst)), T.const(int(gray), 0)])
    ex.oblige(s, n + ": succeeds", valid(w, s, out), "post", ins)
    observers(w, s, n, f=dst, img=out); untouched(w, st, s, n)
    s2, x, y = coords(s, w.W, w.H, w)
    a = pix(w, s2, w.img, x, y, src); b = pix(w, s2, out, x, y, dst)
    if src == dst: want = same_bytes(src, a)
    else:
        c = decode(src, a); want = encode(dst, gray_of(dst, srgb, c) if gray and src != "Complex" else c)
    conv = [bm for bm in w.lib.bm.values() if getattr(bm, "converted", None) is not None]
    lib = T.FALSE
    for bm in conv:
        here = T.or_(*[c for c, base, o in b.ptr.cases if base is not None and base.name == bm.bits] or [T.FALSE])
        good = bm.converted is w.bm and bm.f == dst and lib_may(src, dst, srgb, gray)
        if good: lib = T.or_(lib, here)
    q = s2.fork(); q.pc = T.and_(s2.pc, T.not_(lib))
    for o, z, v in want: ex.oblige(q, n + ": byte %d of every pixel" % o, T.eq(b(o, z), v), "post", ins + [x, y])
    run.discharge_into(res, ex.obs, ins); run.collect(res, ex)
def op_convert(dst, srgb, gray):
    def go(res):
        for src in FMTS: convert_one(res, src, dst, srgb, gray)
        res.functions += ["Image::convert", "Image::operator=", "Image::Image(const Image&)"]
    return go
def normal_one(res, src, dst):
    w = World(src); ex, st = w.ex, w.st; own(w, st); out = X.ptr(X.Base("out")); w.lib.maxabs = 1e38
    n = "createNormalMap %s to %s" % (src, dst); opt = T.var("options", 32); h = T.var("height", 64); ins = [w.W, w.H, opt, h]
    ex.assumptions += [T.fp("fp.le", [F64(-1e30), h], 0), T.fp("fp.le", [h, F64(1e30)], 0)]; T.FPFACTS[h.id] = (-1e30, 1e30)
    s, _ = call(ex, st, r"^cuttlefish::Image::createNormalMap\(", [out, w.img, opt, h, C32(fmt(dst))])
    ex.oblige(s, n + ": succeeds", valid(w, s, out), "post", ins)
    observers(w, s, n, f=dst, img=out); untouched(w, st, s, n)
    s2, x, y = coords(s, w.W, w.H, w)
    one, zero = C32(1), C32(0); yb = w.row(y)          # the library counts rows from the bottom
    bit = lambda o: T.ne(T.bvand(opt, C32(E("Image::NormalOptions::" + o))), zero)
    wx, wy, keep = bit("WrapX"), bit("WrapY"), bit("KeepSign")
    def axis(v, size, wrap):
        first, last = T.eq(v, zero), T.eq(v, T.sub(size, one))
        a = T.ite(first, T.ite(wrap, T.sub(size, one), v), T.sub(v, one)); b = T.ite(last, T.ite(wrap, zero, v), T.add(v, one))
        return a, b, T.ite(T.and_(T.or_(first, last), T.not_(wrap)), F64(1.0), F64(2.0))
    op = lambda o, *a: T.fp("fp." + o, list(a), 64)
    red = lambda xx, yy: decode(src, w.raw(s2, w.bm, xx, yy))[0]
    def slope(p, q, dist): return op("div", op("mul", op("sub", p, q), h), dist)
    y0, y2, dy_ = axis(yb, w.H, wy); x0, x2, dx_ = axis(x, w.W, wx)
    dy = slope(red(x, y0), red(x, y2), dy_); dx = slope(red(x0, yb), red(x2, yb), dx_)
    l = op("sqrt", op("add", op("add", op("mul", dx, dx), op("mul", dy, dy)), ONE))
    c = [op("div", dx, l), op("div", dy, l), op("div", ONE, l)]
    c = [T.ite(keep, v, op("add", op("mul", v, F64(0.5)), F64(0.5))) for v in c] + [ONE]
    b = pix(w, s2, out, x, y, dst)
    for o, z, v in encode(dst, gray_of(dst, False, c)): ex.oblige(s2, n + ": byte %d of every pixel" % o, T.eq(b(o, z), v), "post", ins + [x, y])
    run.discharge_into(res, ex.obs, ins); run.collect(res, ex)
def op_normal(srcs, dsts):
    def go(res):
        for s in srcs:
            for d in dsts: normal_one(res, s, d)
        res.functions += ["Image::createNormalMap", "setPixelImpl"]
    return go
OWN_FILTER = ("Int16", "Int32", "UInt32", "Double", "Complex")      # formats the library cannot resize
FILTERS = {"Box": "FILTER_BOX", "Linear": "FILTER_BILINEAR", "Cubic": "FILTER_BICUBIC", "CatmullRom": "FILTER_CATMULLROM", "BSpline": "FILTER_BSPLINE"}
def op_resize(f, srgb, filt, lib_ok):
    """lib_ok: the library's own resizing works; otherwise the fallback loops run (whose window sums are checked natively)"""
    def go(res):
        w = World(f, cs=CS(srgb)); ex, st = w.ex, w.st; own(w, st); out = X.ptr(X.Base("out")); w.lib.scale_ok = T.TRUE if lib_ok else T.FALSE
        w.lib.u16 = f == "UInt16"; w.bm.f = f; n = "resize %s%s %s%s" % (f, " sRGB" if srgb else "", filt, "" if lib_ok else " (fallback)"); W2, H2 = T.var("newWidth", 32), T.var("newHeight", 32); ins = [w.W, w.H, W2, H2]
        if not lib_ok or f in OWN_FILTER:
            for v in (w.W, w.H): ex.assumptions.append(T.ult(v, C32(1 << 30))); T.FACTS[v.id] = (1 << 30) - 1
        T.FACTS[W2.id] = SMAX; T.FACTS[H2.id] = SMAX
        zero = T.or_(T.eq(W2, C32(0)), T.eq(H2, C32(0))); same = T.and_(T.eq(W2, w.W), T.eq(H2, w.H))
        # rejected sizes
        q = st.fork(); q.pc = T.and_(st.pc, zero)
        s, _ = call(ex, q, r"^cuttlefish::Image::resize\(", [out, w.img, W2, H2, C32(E("Image::ResizeFilter::" + filt))])
        ex.oblige(s, n + ": an empty size gives an invalid image", T.not_(valid(w, s, out)), "post", ins)
        # the same size: a copy
        s, _ = call(ex, st, r"^cuttlefish::Image::resize\(", [out, w.img, w.W, w.H, C32(E("Image::ResizeFilter::" + filt))])
        ex.oblige(s, n + " to the same size: succeeds", valid(w, s, out), "post", ins); observers(w, s, n + " to the same size", img=out); untouched(w, st, s, n)
        s2, x, y = coords(s, w.W, w.H, w); a = pix(w, s2, w.img, x, y, f); b = pix(w, s2, out, x, y, f)
        for o, z, v in same_bytes(f, a): ex.oblige(s2, n + " to the same size: every pixel", T.eq(b(o, z), v), "post", ins + [x, y])
        # another size
        q = st.fork(); q.pc = T.and_(st.pc, T.not_(zero), T.not_(same))
        s, _ = call(ex, q, r"^cuttlefish::Image::resize\(", [out, w.img, W2, H2, C32(E("Image::ResizeFilter::" + filt))])
        ok = lib_ok and f not in OWN_FILTER
        if ok or filt in ("Box", "Linear"):
            ex.oblige(s, n + ": succeeds", valid(w, s, out), "post", ins)
            observers(w, s, n, W=W2, H=H2, img=out)
        else: ex.oblige(s, n + ": no such filter, an invalid image", T.not_(valid(w, s, out)), "post", ins)
        untouched(w, st, s, n)
        if ok:
            r = [b for b in w.lib.bm.values() if getattr(b, "rescaled", None)]
            want = r[0].rescaled if r else None
            ex.oblige(s, n + ": the library resizes once, with that filter", T.const(int(len(r) == 1 and T.isc(want[1]) and want[1].x == E(FILTERS[filt])), 0), "post")
            if r:
                o_, _, at = want; r = r[0]
                ex.oblige(s, n + ": to that size", T.and_(T.eq(r.w, W2), T.eq(r.h, H2)), "post", ins)
                # what is resized: this image, in linear space
                ex.oblige(s, n + ": from an image of this size", T.and_(T.eq(o_.w, w.W), T.eq(o_.h, w.H)) if o_.f == f else T.FALSE, "post", ins)
                if o_.f == f:
                    x, y = T.var("px", 32), T.var("py", 32); t = at.fork(); t.pc = T.and_(at.pc, T.ult(x, w.W), T.ult(y, w.H))
                    a = w.raw(st, w.bm, x, y, f); c = decode(f, a)
                    for o, z, v in (encode(f, [to_linear(k) for k in c[:3]] + [c[3]]) if srgb else same_bytes(f, a)):
                        ex.oblige(t, n + ": what is resized, in linear space (byte %d)" % o, T.eq(w.raw(t, o_, x, y, f)(o, z), v), "post", ins + [x, y])
                # and what becomes of it: in the image's colour space again, in the image's format
                s2, x, y = coords(s, W2, H2, w); b = pix(w, s2, out, x, y, f); row = T.sub(T.sub(H2, y), C32(1))
                a = w.raw(at, r, x, row, r.f)
                conv = [m for m in w.lib.bm.values() if getattr(m, "converted", None) is r and m.f == f] if r.f != f else []
                fin = lambda v: [to_srgb(k) for k in v[:3]] + [v[3]] if srgb else v
                for m in conv:    # 24-bit colours reduced by the library
                    here = w.raw(at, m, x, row, f); q = s2.fork(); q.pc = T.and_(s2.pc, T.var("convert:" + m.name, 0))
                    for o, z, v in (encode(f, fin(decode(f, here))) if srgb else same_bytes(f, here)): ex.oblige(q, n + ": every pixel (byte %d)" % o, T.eq(b(o, z), v), "post", ins + [x, y])
                q = s2.fork()
                for m in conv: q.pc = T.and_(q.pc, T.not_(T.var("convert:" + m.name, 0)))
                c = decode(r.f, a)
                if r.f != f and srgb: c = decode(f, reader_of(encode(f, c)))
                for o, z, v in (encode(f, fin(c)) if srgb or r.f != f else same_bytes(f, a)): ex.oblige(q, n + ": every pixel (byte %d)" % o, T.eq(b(o, z), v), "post", ins + [x, y])
        if not lib_ok or f in OWN_FILTER: scaled_lemma(ex)
        res.functions += ["Image::resize", "Image::changeColorSpace", "Image::convert"]
        run.discharge_into(res, ex.obs, ins); run.collect(res, ex)
    return go
def scaled_lemma(ex):
    """size/newSize*(k + 0.5) <= 2^30 for k < newSize, in double arithmetic (each operation off by a factor 1 +- 2^-53; k + 0.5 exact)"""
    import z3
    from vc import smt
    h, n, k, e1, e2, q, t = z3.Reals("h n k e1 e2 q t"); u = z3.Q(1, 2 ** 53); st = X.State()
    # q*(k + 1/2) <= h - h/(2 n), then two rounding factors
    s1 = z3.Solver(); s1.set("timeout", 20000)
    s1.add(h >= 0, n >= 1, k >= 0, k <= n - 1, q * n == h, z3.Or(q * (k + z3.Q(1, 2)) > h, q * (k + z3.Q(1, 2)) < 0))
    s2 = z3.Solver(); s2.set("timeout", 20000)
    s2.add(t >= 0, t <= 2 ** 30 - 1, e1 >= -u, e1 <= u, e2 >= -u, e2 <= u, z3.Or(t * (1 + e1) * (1 + e2) > 2 ** 30, t * (1 + e1) * (1 + e2) < 0))
    ok = s1.check() == z3.unsat and s2.check() == z3.unsat
    ex.oblige(st, "lemma: a scaled pixel position stays below 2^30", T.const(int(ok), 0), "lemma")
    if not ok: return
    pats = {}
    for o in ex.obs:
        seen = set(); work = [o.goal]
        while work:
            t = work.pop()
            if t.id in seen: continue
            seen.add(t.id); work.extend(t.args)
            if t.op != "fp.mul": continue
            for d, a in (t.args, t.args[::-1]):
                if d.op != "fp.div" or a.op != "fp.add" or any(x.op != "fp.fromui" for x in d.args): continue
                c, kk = a.args if T.isc(a.args[0]) else a.args[::-1]
                if not (T.isc(c) and T.b2f(c.x, 64) == 0.5 and kk.op == "fp.fromui"): continue
                pats.setdefault(t, []).append((o, kk.args[0], d.args[1].args[0]))
    full = lambda v: v.args[0] if v.op in ("extract", "zext") and (v.op == "zext" or v.x == (30, 0)) else v
    hyps = lambda o: smt.flat_hyps(o.hyps).values()
    # the window sums themselves are not specified (bounded check): only that an average is a number within the range of its terms
    for o in ex.obs:
        seen = set(); work = [o.goal]
        while work:
            t = work.pop()
            if t.id in seen: continue
            seen.add(t.id); work.extend(t.args)
            if t.op == "fp.div" and t.args[0].op == "uf" and re.match(r"L\d+\.", str(t.args[0].x)): T.FPFACTS[t.id] = (-1e38, 1e38)
    for t, l in pats.items():
        if all(any(h is T.ult(full(k), full(n)) for h in hyps(o)) for o, k, n in l):
            T.FPFACTS[t.id] = (0.0, 2.0 ** 30)
            # k < n makes n positive
            for o, k, n in l: T.FPFACTS[T.fp("fp.fromui", [n], 64).id] = (1.0, 2.0 ** 31)
def reader_of(parts):
    d = {(o, z): v for o, z, v in parts}
    return lambda o, z: d[(o, z)]
def op_invalid(res):
    """no operation succeeds on an invalid image, nor changes anything"""
    w = World("RGBA8"); ex = w.ex; st = X.State(); img = X.ptr(X.Base("none")); ex.write(st, X.Base("none"), Z64, 8, X.NULL); out = X.ptr(X.Base("out"))
    v = lambda n: T.var(n, 32)
    for n, a in (("flipHorizontal", []), ("flipVertical", []), ("preMultiplyAlpha", []), ("grayscale", []), ("changeColorSpace", [v("cs")]), ("swizzle", [v("c%d" % i) for i in range(4)])):
        s, r = call(ex, st, r"^cuttlefish::Image::%s\(" % n, [img] + a)
        ex.oblige(s, n + " of an invalid image fails", T.not_(tbool(r)), "post")
        for m in loops_writes(st, s, w, ()): ex.oblige(s, n + " of an invalid image changes %s" % m, T.FALSE, "frame")
    for n, a in (("rotate", [v("angle")]), ("convert", [v("format"), T.var("gray", 0)]), ("resize", [v("w"), v("h"), v("filter")]), ("createNormalMap", [v("options"), T.var("height", 64), v("format")])):
        s, r = call(ex, st, r"^cuttlefish::Image::%s\(" % n, [out, img] + a)
        ex.oblige(s, n + " of an invalid image gives an invalid image", T.not_(valid(w, s, out)), "post")
        for m in loops_writes(st, s, w): ex.oblige(s, n + " of an invalid image changes %s" % m, T.FALSE, "frame")
    run.discharge_into(res, ex.obs, []); run.collect(res, ex)
ASSUME_OPS = ["FreeImage_Rotate turns by multiples of 90 degrees exactly, FreeImage_Flip* mirror in place, FreeImage_Rescale gives an image of the requested size, FreeImage_ConvertTo* convert each pixel as documented by the library",
              "what FreeImage's resampling filters compute is the library's; the average of a window in the fallback filters is a number (checked natively on samples), sizes below 2^30 there",
              "createNormalMap: |height| <= 1e30 and 64-bit pixels below 1e38"]
