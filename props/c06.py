from vc import run, build
from . import tex
def main():
    ctx = run.Ctx("C06", "mip chain geometry follows the rules of the texture dimension")
    try:
        tex.modules()
        ctx.unit("maxMipmapLevels", tex.unit_maxlevels)
        ctx.unit("initialize, no texture before", tex.unit_init(True))
        ctx.unit("initialize, a texture before", tex.unit_init(False))
    except build.BuildError as e:
        ctx.unit("extraction", lambda res, e=e: (_ for _ in ()).throw(e))
    ctx.native.append(("geometry of textures through the public API", tex.native_geometry))
    return run.finish(ctx, run.run_units(ctx))
