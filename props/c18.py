from vc import run, build
from . import cmdline as M
def native(args=()):
    objs = build.native_objs()
    return build.run_native(build.native("tool.cpp", objs=objs), [run.SEED] + list(args), 120)
def main():
    ctx = run.Ctx("C18", "numbers on the command line are taken as given or rejected, and sizes resolve to the documented value")
    try:
        M.modules()
        for n, f in (("nextPO2, nearestPO2", M.unit_po2), ("getDimension", M.unit_dimension), ("readIndex", M.unit_readindex), ("readSize", M.unit_readsize), ("loadAndProcessImage", M.unit_load), ("parse[--rotate]", M.unit_parse_rotate), ("parse[-r]", M.unit_parse_resize),
                     ("parse[-n]", M.unit_parse_normal), ("parse[-n wrap]", lambda res: M.unit_parse_normal(res, "wrap")), ("parse[-n wrapy]", lambda res: M.unit_parse_normal(res, "wrapy")), ("parse[-a]", M.unit_parse_array)): ctx.unit(n, f)
        for o, f, d in (("-j", "jobs", "allCores"), ("--jobs", "jobs", "allCores"), ("-m", "mipLevels", "allMipLevels"), ("--mipmap", "mipLevels", "allMipLevels")):
            ctx.unit("parse[%s]" % o, lambda res, o=o, f=f, d=d: M.unit_parse_count(res, o, f, d))
        for i in range(6): ctx.unit("parse[-C %s]" % M.FACES[i], lambda res, i=i: M.unit_parse_array(res, M.FACES[i]))
        for d in (False, True):
            for f in (None, "-x", "+z"): ctx.unit("parse[-M%s%s]" % (" depth" if d else "", " " + f if f else ""), lambda res, d=d, f=f: M.unit_parse_mip(res, d, f))
    except build.BuildError as e:
        ctx.unit("extraction", lambda res, e=e: (_ for _ in ()).throw(e))
    ctx.bounded_always.append(("numbers in --custom-mip-list files (not under contract), and the tool's functions on sizes, command lines and images", lambda c, f: native()))
    ctx.assumptions += ["strtol, strtoul, strtod, strcmp, strcasecmp, strchr, strlen by the C standard's contracts; long has 64 bits", "std::vector, std::string and the map of custom mip images by contract; console output has no effect",
                        "each option is taken alone (first on the line) with arbitrary strings that are no option names as its arguments; validate() by contract (any result)", "widths and heights of images between 1 and 2^31; mip levels below 32", "Image's operations by their contracts (C13, C14); loading gives any size"]
    ctx.notes.append("numbers within a --custom-mip-list file are covered by the native run only (bounded)")
    return run.finish(ctx, run.run_units(ctx))
