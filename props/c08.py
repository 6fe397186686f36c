from vc import run, build
from . import tex, mips, mips3
SHAPES = [("Dim1D", 3, 0, 1, 3, 2), ("Dim1D", 3, 3, 2, 0, 1), ("Dim2D", 1, 0, 1, 5, 1), ("Dim2D", 4, 0, 1, 9, 4), ("Dim2D", 4, 0, 4, 2, 2), ("Dim2D", 6, 1, 1, 100, 5), ("Dim2D", 3, 2, 1, 3, 3), ("Dim2D", 3, 3, 3, 2, 2), ("Cube", 2, 0, 1, 2, 3), ("Cube", 3, 0, 2, 4, 3), ("Cube", 3, 2, 1, 3, 2)]
DEEP = [("Dim2D", 8, 0, 1, 8, 8), ("Dim2D", 12, 0, 2, 12, 4), ("Dim2D", 5, 4, 1, 5, 4), ("Cube", 5, 1, 1, 5, 4), ("Cube", 4, 3, 1, 4, 3), ("Dim1D", 16, 2, 1, 16, 3)]
SHAPES3 = [(1, 1, 1, 1), (2, 3, 0, 2), (3, 4, 1, 3), (3, 7, 3, 2), (4, 2, 1, 4), (3, 5, 2, 9)]   # chain, depth, levels before, levels asked for
DEEP3 = [(4, 8, 1, 4), (4, 13, 4, 3), (6, 5, 1, 5)]
def native():
    return lambda c, f: build.run_native(build.native("tex.cpp"), ["mips", run.SEED], 300)
def main():
    ctx = run.Ctx("C08", "generated mip levels come from the right face, layer and custom image")
    ctx.extra["level"] = "other"
    try:
        tex.modules(); mips3.modules()
        for a in sorted(SHAPES3 + (DEEP3 if run.TIER != "quick" else []), key=lambda a: -min(a[0], a[3])): ctx.unit("generateMipmaps[Dim3D, chain of %d, depth %d, from %d to %d levels, every pattern of custom images]" % a, mips3.unit(*a))
        for a in sorted(SHAPES + (DEEP if run.TIER != "quick" else []), key=lambda a: -a[1]*max(a[2], 1)*(6 if a[0] == "Cube" else 1)):
            ctx.unit("generateMipmaps[%s, chain of %d, %d layers, from %d to %d levels, %d custom images]" % a, mips.unit(*a))
    except build.BuildError as e:
        ctx.unit("extraction", lambda res, e=e: (_ for _ in ()).throw(e))
    ctx.bounded_always.append(("generateMipmaps through the public API (500 random textures of all dimensions with random custom images; the slices of 3D textures against an independent filter)", native()))
    ctx.assumptions += ["Image's operations by their contracts (C13, C14, C17) and successful on valid images; std::vector and std::unordered_map::find by contract", "Texture::maxMipmapLevels by its contract (C06)", "exceptions and failing allocations are out of scope"]
    ctx.notes.append("bounded: obligations are discharged for every size, image, filter, custom image, key and mode, but for the listed dimensions, chain lengths, layer counts and numbers of custom images (3D: every pattern of levels with custom images); generateMips3d, which averages slices, is a contract whose body is covered by the native run only")
    return run.finish(ctx, run.run_units(ctx))
