from vc import run, build
from . import tex, save
def main():
    ctx = run.Ctx("C16", "the container type is chosen from the file name's extension alone")
    try:
        tex.modules()
        ctx.unit("fileType", save.unit_filetype)
        ctx.unit("save(name)", save.unit_savefile)
        ctx.unit("save(stream)", save.unit_dispatch)
    except build.BuildError as e:
        ctx.unit("extraction", lambda res, e=e: (_ for _ in ()).throw(e))
    ctx.native.append(("file names through the public API", lambda c, f: build.run_native(build.native("tex.cpp"), ["files", run.SEED])))
    ctx.assumptions += ["the C string functions by their contracts in the C locale", "the name is a terminated string shorter than 2^62 bytes", "no exceptions (allocation succeeds)", "std::ofstream by contract: open, close and every write may fail, and a failure stays visible"]
    return run.finish(ctx, run.run_units(ctx))
