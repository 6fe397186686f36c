from vc import run, build
from . import image
def native(mode, cases=None):
    def go(ctx, failed):
        return build.run_native(build.native("img.cpp"), [mode, run.SEED])
    return go
def main():
    ctx = run.Ctx("C13", "reading back a pixel gives the colour that was stored, within its format")
    try:
        image.modules()
        ctx.unit("colour functions", image.unit_color); ctx.unit("round trip", image.unit_trip); ctx.unit("invalid image", image.unit_invalid)
        for f in image.FMTS:
            ctx.unit("getPixel " + f, image.unit_get(f))
            for s in (0, 1):
                for g in (0, 1): ctx.unit("setPixel %s%s%s" % (f, " sRGB" if s else "", " gray" if g else ""), image.abstract(image.unit_set(f, s, g)))
    except build.BuildError as e:
        ctx.unit("extraction", lambda res, e=e: (_ for _ in ()).throw(e))
    ctx.native.append(("pixels of every format through the public API", native("pixels")))
    ctx.assumptions += image.ASSUME
    return run.finish(ctx, run.run_units(ctx))
