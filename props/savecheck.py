"""Drivers of the checks of the container writers (C09-C12)."""
import os
from vc import run, build
from . import tex, save, formats
def native(section):
    def go(c, failed):
        formats.write_inc(os.path.join(build.scratch(), "gen_formats.inc"))
        return build.run_native(build.native("save.cpp", more=["-I", build.scratch()]), [section, run.SEED])
    return go
ASSUME = ["std::ostream by contract: write and put may fail, and a failure stays visible until cleared", "no exceptions (allocation succeeds, the stream's exception mask is empty)",
          "the observers of Texture by their contracts (C05, C06, C07); the size of every surface by C02", "row and level sizes in bytes are below 2^32 (KTX sizes are 32-bit)", "a little-endian target"]
def main(pid, kind, title):
    ctx = run.Ctx(pid, title)
    try:
        tex.modules()
        for k in ([kind] if kind else save.SAVERS): save.add_writer(ctx, k, contents=kind is not None)
        if not kind: ctx.unit("save(stream)", save.unit_dispatch); ctx.unit("save(name)", save.unit_savefile)
    except build.BuildError as e:
        ctx.unit("extraction", lambda res, e=e: (_ for _ in ()).throw(e))
    ctx.native.append(("independent assembly of the files" if kind else "fault injection at every byte", native(kind.lower() if kind else "faults")))
    ctx.assumptions += ASSUME
    return run.finish(ctx, run.run_units(ctx))
