from vc import run, build
from . import tex
def main():
    ctx = run.Ctx("C05", "the format tables report each format's real block geometry and channels")
    try:
        tex.modules()
        for fn in ("blockWidth", "blockHeight", "blockSize", "minWidth", "minHeight", "hasAlpha"): ctx.unit(fn, tex.unit_table(fn, fn))
        ctx.unit("hasNativeSRGB", tex.unit_srgb)
    except build.BuildError as e:
        ctx.unit("extraction", lambda res, e=e: (_ for _ in ()).throw(e))
    ctx.native.append(("every format through the public API", tex.native_tables))
    return run.finish(ctx, run.run_units(ctx))
