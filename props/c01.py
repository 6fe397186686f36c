import re
from vc import run, build
from . import conv
def main():
    ctx = run.Ctx("C01", "every texel of an uncompressed surface is the format's encoding of its pixel")
    try:
        conv.modules()
        for f in conv.FORMATS:
            for t in conv.valid_types(f): ctx.unit("%s/%s" % (f, t), conv.unit_conv(f, t))
        ctx.unit("toFloat16", conv.half_unit)
        ctx.unit("lemmas", conv.lemma_unit)
    except build.BuildError as e:
        ctx.unit("extraction", lambda res, e=e: (_ for _ in ()).throw(e))
    ctx.native.append(("conversion through the public API against a reference encoder", conv.native_conv))
    rs = run.run_units(ctx)
    return run.finish(ctx, rs)
