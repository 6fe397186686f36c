from vc import run, build
from . import image as I
from .c13 import native
ANGLES = ("CW90", "CW180", "CW270", "CCW90", "CCW180", "CCW270")
def main():
    ctx = run.Ctx("C14", "whole-image operations act on every pixel and only as documented")
    try:
        I.modules(); A = lambda n, fn: ctx.unit(n, I.abstract(fn))
        ctx.unit("colour functions", I.unit_color); ctx.unit("invalid image", I.op_invalid)
        for s in I.FMTS: A("createNormalMap of %s" % s, I.op_normal([s], ["RGBF", "RGB8"] if s != "Float" else ["RGBF"]))
        for d in I.FMTS: A("createNormalMap to %s" % d, I.op_normal(["RGBF"], [d]))
        for d in I.FMTS:
            for s in (0, 1):
                for g in (0, 1): A("convert to %s%s%s" % (d, " sRGB" if s else "", " gray" if g else ""), I.op_convert(d, s, g))
        for f in I.FMTS:
            A("swizzle " + f, I.op_swizzle(f))
            for d in ("Horizontal", "Vertical"): A("flip%s %s" % (d, f), I.op_flip(f, d))
            for s in (0, 1):
                A("grayscale %s %d" % (f, s), I.op_grayscale(f, s)); A("preMultiplyAlpha %s %d" % (f, s), I.op_premultiply(f, s))
                for t in (0, 1): A("changeColorSpace %s %d to %d" % (f, s, t), I.op_colorspace(f, s, t))
                for r in I.FILTERS: A("resize %s %d %s" % (f, s, r), I.op_resize(f, s, r, 1))
                for r in ("Box", "Linear", "Cubic"):
                    if f not in I.OWN_FILTER: A("resize %s %d %s, fallback" % (f, s, r), I.op_resize(f, s, r, 0))
            for a in ANGLES:
                for ok in (0, 1): A("rotate %s %s %d" % (f, a, ok), I.op_rotate(f, a, ok))
    except build.BuildError as e:
        ctx.unit("extraction", lambda res, e=e: (_ for _ in ()).throw(e))
    ctx.native += [("%s through the public API" % m, native(m)) for m in ("ops", "convert")]
    ctx.bounded_always.append(("resized uniform images (the window sums of the fallback filters are not under contract)", native("resize")))
    ctx.assumptions += I.ASSUME + I.ASSUME_OPS
    return run.finish(ctx, run.run_units(ctx))
