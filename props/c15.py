from vc import run, build
from . import image as I, valrange as V
from .c13 import native
def main():
    ctx = run.Ctx("C15", "value range adjustment")
    try:
        V.modules(); ctx.unit("invalid image", V.unit_none)
        for f in I.FMTS: ctx.unit("image of format " + f, I.abstract(V.unit(f)))
    except build.BuildError as e:
        ctx.unit("extraction", lambda res, e=e: (_ for _ in ()).throw(e))
    ctx.native.append(("adjustImageValueRange through the public API", native("range")))
    ctx.assumptions += I.ASSUME + I.ASSUME_OPS + ["widths and heights below 2^28 (the loop bound width*4 does not wrap)", "the alpha channel of RGBA images made from RGB5/RGB565 sources is not specified for UInt and Int"]
    return run.finish(ctx, run.run_units(ctx))
