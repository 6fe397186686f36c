from vc import run, build
from . import image as I, copies as K
from .c13 import native
def ntex(mode):
    def go(ctx, failed): return build.run_native(build.native("tex.cpp"), [mode, run.SEED])
    return go
def main():
    ctx = run.Ctx("C17", "copies are independent and equal; moves transfer")
    try:
        I.modules(); K.tex.modules(); ctx.unit("invalid image", K.unit_invalid); ctx.unit("textures", K.unit_texture); ctx.unit("custom mip images", K.unit_custom)
        for f in I.FMTS: ctx.unit("image of format " + f, K.unit_image(f))
    except build.BuildError as e:
        ctx.unit("extraction", lambda res, e=e: (_ for _ in ()).throw(e))
    ctx.native.append(("copies of images of every format through the public API", native("copies")))
    ctx.native.append(("copies of textures, images and custom mip images through the public API", ntex("copies")))
    ctx.assumptions += I.ASSUME + ["copying or assigning a std::vector gives an equal vector with elements of its own (each element copied by Image's copy members, which are proved); moving transfers the elements", "FreeImage_Clone gives an equal bitmap of its own, or fails", "every observer of a texture depends on its data block alone (C06, C07)"]
    return run.finish(ctx, run.run_units(ctx))
