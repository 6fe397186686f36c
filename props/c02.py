from vc import run, build
from . import conv, convert
def native(ctx, failed):
    return build.run_series("conv2.cpp", [["sizes", run.SEED], ["big", run.SEED]], ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-sanitize=float-cast-overflow"], [["threads", run.SEED]], {"ASAN_OPTIONS": "detect_leaks=0"})
def main():
    ctx = run.Ctx("C02", "converted surfaces have the exact size and each block is written once")
    try:
        conv.modules(); convert.modules()
        for f in conv.FORMATS:
            for t in conv.valid_types(f): ctx.unit("%s/%s" % (f, t), conv.unit_struct(f, t))
        ctx.unit("lemmas", conv.lemma_unit)
        for c in convert.CASES: ctx.unit("convert, " + c, convert.unit_convert(c))
        ctx.unit("convert, worker thread", convert.unit_worker)
        ctx.unit("convert, no converter", convert.unit_fail)
    except build.BuildError as e:
        ctx.unit("extraction", lambda res, e=e: (_ for _ in ()).throw(e))
    ctx.native.append(("conversion of textures of every kind through the public API, with sanitizers", native))
    ctx.assumptions += convert.ASSUME
    return run.finish(ctx, run.run_units(ctx))
