"""Texture::adjustImageValueRange, on images of every format"""
from vc import term as T, run, build, execu as X
from . import image as I, tex
from .image import C32, C64, fmt, E
UN = ("Gray8", "Gray16", "RGB5", "RGB565", "RGB8", "RGB16", "RGBA8", "RGBA16")
TARGET = {"Gray8": "Float", "Gray16": "Float", "Double": "Float", "Float": "Float", "RGB5": "RGBF", "RGB565": "RGBF", "RGB8": "RGBF", "RGB16": "RGBF", "Complex": "RGBF", "RGBF": "RGBF",
          "RGBA8": "RGBAF", "RGBA16": "RGBAF", "RGBAF": "RGBAF"}
TYPES = ["UNorm", "SNorm", "UInt", "Int", "UFloat", "Float"]
def modules():
    if "types" not in I._m:
        I._m["P"] = X.Program([build.ir("lib/src/Image.cpp", I.NOIN), build.ir("lib/src/Texture.cpp", tex.NOIN)])
        I.modules_enums()
        I._m["types"] = build.enum_values("cuttlefish/Texture.h", ["Texture::Type::" + t for t in TYPES])
    return I._m["P"]
def ty(n): return I._m["types"]["Texture::Type::" + n]
F32 = lambda v: T.fconst(v, 32)
def mapped(orig, t, c, v):
    """the value of channel c after adjustment, None when it is not specified"""
    op = lambda o, *a: T.fp("fp." + o, list(a), 32)
    if t == "SNorm": return (op("sub", op("mul", v, F32(2.0)), F32(1.0)),)
    if orig in ("RGB5", "RGB565"):
        if c == 3: return None
        q = 63.0 if c == 1 and orig == "RGB565" else 31.0
    else: q = 255.0 if orig in ("Gray8", "RGB8", "RGBA8") else 65535.0
    s = op("mul", v, F32(q))
    rnd = lambda e: T.fp("fp.round", [e], 32, "RNA")
    return (rnd(op("sub", s, F32((q + 1) / 2))),) if t == "Int" else (rnd(s), rnd(op("add", s, F32(0.0))))      # the sign of a zero is not specified
def one(res, now, orig, t, srgb):
    """orig, t: a name, "Invalid", or None for every other value"""
    w = I.World(now, cs=I.CS(srgb)); ex, st = w.ex, w.st; I.own(w, st); ex.opts["counter_facts"] = True
    for v in (w.W, w.H): ex.assumptions.append(T.ult(v, C32(1 << 28))); T.FACTS[v.id] = (1 << 28) - 1
    T.FACTS.pop(T.var("px", 32).id, None); n = "adjustImageValueRange %s%s from %s to %s" % (now, " sRGB" if srgb else "", orig or "another format", t or "another type"); ins = [w.W, w.H]
    if t is None:
        tv = T.var("type", 32); st.pc = T.and_(st.pc, *[T.ne(tv, C32(ty(k))) for k in ("SNorm", "UInt", "Int")])
    else: tv = C32(ty(t))
    if orig is None:
        ov = T.var("origFormat", 32); st.pc = T.and_(st.pc, *[T.ne(ov, C32(fmt(k))) for k in UN + ("Invalid",)])
    else: ov = C32(fmt(orig))
    s, _ = I.call(ex, st, r"^cuttlefish::Texture::adjustImageValueRange\(", [w.img, tv, ov])
    o = now if orig == "Invalid" else orig
    acts = t is not None and o in UN and now in TARGET
    f = TARGET[now] if acts else now
    ex.oblige(s, n + ": the image stays valid", I.valid(w, s, w.img), "post", ins)
    I.observers(w, s, n, f=f)
    if not acts:
        for m in I.loops_writes(st, s, w): ex.oblige(s, n + ": nothing changes (%s)" % m, T.FALSE, "frame")
    else:
        try: pixels(w, st, s, n, f, now, o, t, srgb, ins)
        except X.Unsupported:
            run.discharge_into(res, ex.obs, ins); run.collect(res, ex)
            if res.failed: return      # what is already refuted is reported
            raise
    run.discharge_into(res, ex.obs, ins); run.collect(res, ex)
def pixels(w, st, s, n, f, now, o, t, srgb, ins):
        ex = w.ex; s2, x, y = I.coords(s, w.W, w.H, w); row = w.row(y); T.FACTS[x.id] = (1 << 28) - 2
        got = I.pix(w, s2, w.img, x, y, f)
        def check(q, rd, why):
            for c, (_, of, z) in enumerate(I.LAYOUT[f][1]):
                want = mapped(o, t, c, rd(of, z))
                if want is not None: ex.oblige(q, n + ": channel %d of every pixel%s" % (c, why), T.or_(*[T.eq(got(of, z), e) for e in want]), "post", ins + [x, y])
        if f == now: check(s2, w.raw(st, w.bm, x, row, f), "")
        else:
            cv = [b for b in w.lib.bm.values() if getattr(b, "converted", None) is w.bm]
            q = s2.fork()
            for b in cv:
                here = T.var("convert:" + b.name, 0)
                if b.f == f and I.lib_may(now, f, srgb, True):
                    l = s2.fork(); l.pc = T.and_(s2.pc, here); check(l, w.raw(st, b, x, row, f), " (converted by the library)"); q.pc = T.and_(q.pc, T.not_(here))
            check(q, I.reader_of(I.encode(f, I.gray_of(f, srgb, I.decode(now, w.raw(st, w.bm, x, row))))), "")
def unit(now):
    def go(res):
        for srgb in (0, 1):
            if srgb and now != "Double": continue      # the colour space only matters when a luminance is taken
            for t in ("SNorm", "UInt", "Int"):
                for o in UN + ("Invalid",): one(res, now, o, t, srgb)
            one(res, now, None, "SNorm", srgb); one(res, now, None, "Int", srgb); one(res, now, "Gray8", None, srgb); one(res, now, "Invalid", None, srgb)
        res.functions += ["Texture::adjustImageValueRange", "Image::convert", "Image::scanline", "Image::operator="]
    return go
def unit_none(res):
    modules(); w = I.World("RGBA8"); ex = w.ex; st = X.State(); img = X.ptr(X.Base("none")); ex.write(st, X.Base("none"), C64(0), 8, X.NULL)
    s, _ = I.call(ex, st, r"^cuttlefish::Texture::adjustImageValueRange\(", [img, T.var("type", 32), T.var("origFormat", 32)])
    for m in I.loops_writes(st, s, w, ()): ex.oblige(s, "adjustImageValueRange of an invalid image changes %s" % m, T.FALSE, "frame")
    ex.oblige(s, "an invalid image stays invalid", T.not_(I.valid(w, s, img)), "post")
    run.discharge_into(res, ex.obs, []); run.collect(res, ex)
