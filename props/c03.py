from vc import run, build
from . import conv, convert
def native(ctx, failed):
    return build.run_series("conv2.cpp", [["threads", run.SEED, 3], ["huge", run.SEED]], ["-fsanitize=thread"], [["threads", run.SEED]], {"TSAN_OPTIONS": "halt_on_error=1 exitcode=66"})
def main():
    ctx = run.Ctx("C03", "conversion results do not depend on thread count or scheduling")
    try:
        conv.modules(); convert.modules()
        for c in convert.CASES: ctx.unit("convert, " + c, convert.unit_convert(c))
        ctx.unit("convert, worker thread", convert.unit_worker)
        # two jobs of a converter write apart: each writes only its own texels (frame), every texel has one job (lemma)
        for f in conv.FORMATS:
            for t in conv.valid_types(f): ctx.unit("%s/%s" % (f, t), conv.unit_struct(f, t))
        ctx.unit("lemmas", conv.lemma_unit)
    except build.BuildError as e:
        ctx.unit("extraction", lambda res, e=e: (_ for _ in ()).throw(e))
    ctx.native.append(("all thread counts compared through the public API, and under the thread sanitizer", native))
    ctx.assumptions += convert.ASSUME
    return run.finish(ctx, run.run_units(ctx))
