from vc import run, build
from . import tex
def main():
    ctx = run.Ctx("C07", "indexed image and data access hits exactly the addressed sub-image")
    try:
        tex.modules()
        ctx.unit("getImage", tex.unit_get)
        for face in (False, True):
            for move in (False, True): ctx.unit("setImage%s%s" % (" face" if face else "", " move" if move else ""), tex.unit_set(face, move))
        ctx.unit("invalid texture", tex.unit_unset)
        ctx.unit("imagesComplete", tex.unit_complete)
        ctx.unit("convert, data, dataSize", tex.unit_convert)
    except build.BuildError as e:
        ctx.unit("extraction", lambda res, e=e: (_ for _ in ()).throw(e))
    ctx.native.append(("image and data access through the public API", lambda c, f: build.run_native(build.native("tex.cpp"), ["access", run.SEED])))
    ctx.assumptions += ["a cube face argument is one of the six enumerators", "Image::convert, changeColorSpace, copy and move by their contracts (properties C14, C17): value identifiers, null exactly when the image is invalid", "a valid image has at least one pixel",
                        "Converter::convert by its contract: on success the data has the shape of the images and each place its own data (decided by C02/C03)", "states reached by initialize with arbitrary images in every place; no exceptions (allocation succeeds)"]
    return run.finish(ctx, run.run_units(ctx))
