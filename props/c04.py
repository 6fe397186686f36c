"""C04: the pairs of format and type that are reported valid, that have a converter and that a container can hold."""
import re
from vc import term as T, run, build, execu as X
from . import tex, conv, save, savecheck, formats
from .tex import C32, C64, E, fmt, nul

def unit_create(res):
    """createConverter(texture, ...) makes a converter exactly for the valid pairs: all values of both enumerations' types"""
    P = conv.modules(); f, t = T.var("format", 32), T.var("type", 32)
    for name in tex.ALLFMT + [None]:
        S = conv.Setup()
        ex = conv.executor(S, f if name is None else C32(fmt(name)), t)
        ex.assumptions = list(S.hyps)
        st = X.State()
        if name is None: st.pc = T.and_(*[T.ne(f, C32(fmt(n))) for n in tex.ALLFMT])
        st2, p = conv.create(ex, st)
        types = [T.eq(t, C32(E("Texture::Type::" + x))) for x in (tex.std_types(name) if name in tex.STANDARD else [])]
        ex.oblige(st2, "a converter exists exactly for the valid types of %s" % (name or "any other value"), T.iff(T.not_(nul(p)), T.or_(*types)), "post", (f, t))
        run.discharge_into(res, ex.obs, (f, t)); run.collect(res, ex)
    res.functions.append("createConverter")

def unit_file(res):
    """isFormatValid(format, type, fileType) for all values of the three enumerations' types"""
    ex = X.Executor(tex.modules()); f, t, ft = T.var("format", 32), T.var("type", 32), T.var("fileType", 32)
    ex.contracts += [(re.compile(r"^cuttlefish::Texture::isFormatValid\(cuttlefish::Texture::Format, cuttlefish::Texture::Type\)$"), lambda ex, fr, st, ins, dem, v: tex.valid_term(*v))]
    st, r = tex.call(ex, X.State(), tex.find(r"^cuttlefish::Texture::isFormatValid\(cuttlefish::Texture::Format, cuttlefish::Texture::Type, cuttlefish::Texture::FileType\)$"), [f, t, ft])
    class V: pass
    tx = V(); tx.f = f; tx.t = t; tx.srgb = T.FALSE
    can = []
    for kind, fn in (("DDS", formats.dds), ("KTX", lambda f, t, s: (formats.ktx(f, t, s) or [None])[0]), ("PVR", lambda f, t, s: formats.pvr(f))):
        _, has = save.table(tx, fn, 64)
        can.append(T.and_(T.eq(ft, C32(E("Texture::FileType::" + kind))), has))
        s = st.fork(); s.pc = T.and_(st.pc, T.eq(ft, C32(E("Texture::FileType::" + kind))))
        ex.oblige(s, "valid for %s exactly when it is valid and %s has a number for it" % (kind, kind), T.iff(tex.bool_of(r), T.and_(has, tex.valid_term(f, t))), "post", (f, t))
    s = st.fork(); s.pc = T.and_(st.pc, *[T.ne(ft, C32(E("Texture::FileType::" + k))) for k in ("DDS", "KTX", "PVR")])
    ex.oblige(s, "valid for no other file type", T.not_(tex.bool_of(r)), "post", (f, t, ft))
    res.functions += ["Texture::isFormatValid(format, type, fileType)", "isValidForDds", "isValidForKtx", "isValidForPvr"]
    run.discharge_into(res, ex.obs, (f, t, ft)); run.collect(res, ex)

def unit_reject(res):
    """Texture::convert with a pair that cannot be converted, on a texture that was converted before or not"""
    c = tex.Converted(); ex, w, st = c.ex, c.w, c.st; S = r"^cuttlefish::Texture::"
    ins = [T.var(n + "2", 32) for n in ("format", "type", "quality", "alphaType", "colorMask", "threads")]
    for k, (rx, h) in enumerate(ex.contracts):
        if rx.pattern.startswith(r"^cuttlefish::Texture::imagesComplete"): ex.contracts[k] = (rx, lambda *a: T.var("imagesComplete2", 0))
        if rx.pattern.startswith(r"^cuttlefish::Converter::convert"):
            def run_(ex, fr, st, ins, dem, v): ex.oblige(st, "convert: a rejected pair never reaches the converter", T.FALSE, "pre"); return T.FALSE
            ex.contracts[k] = (rx, run_)
    del ex.obs[:]          # discharged by the unit "convert accepts"
    q = st.fork(); q.pc = T.and_(st.pc, T.not_(T.and_(tex.valid_term(*ins[:2]), T.or_(T.ne(w.cs, C32(E("ColorSpace::sRGB"))), tex.srgb_term(*ins[:2])))))
    s1, r = w.call(q, S + r"convert\(", ins)
    ex.oblige(s1, "convert: an invalid pair (or a linear one for an sRGB texture) is rejected", T.not_(tex.bool_of(r)), "post", ins)
    m, d, f, _ = tex.common_pre(w)
    for n, rx, a in (("converted", r"converted\(\) const$", []), ("format", r"format\(\) const$", []), ("type", r"type\(\) const$", []), ("alphaType", r"alphaType\(\) const$", []), ("colorMask", r"colorMask\(\) const$", []),
                     ("dataSize", r"dataSize\(unsigned int, unsigned int\) const$", [m, d]), ("dataSize(face)", r"dataSize\(cuttlefish::Texture::CubeFace, unsigned int, unsigned int\) const$", [f, m, d])):
        s0 = q.fork(); s2 = s1.fork()
        if "face" in n:
            s0.pc = T.and_(s0.pc, T.ult(f, C32(6))); s2.pc = T.and_(s2.pc, T.ult(f, C32(6)))
        _, x = w.call(s0, S + rx, a); s2, y = w.call(s2, S + rx, a)
        if x.w == 0: g = T.iff(x, y)
        else: g = T.eq(x, y)
        ex.oblige(s2, "a rejected conversion leaves %s unchanged" % n, g, "frame", w.args + ins + a)
    q2 = s1.fork(); q2.pc = T.and_(s1.pc, tex.in_range(w, m, d, f))
    ex.oblige(q2, "a rejected conversion leaves every image unchanged", T.eq(tex.slot_value(w, q, m, d, f), tex.slot_value(w, q2, m, d, f)), "frame", w.args + ins + [m, d, f])
    w.observers(s1, "after a rejected conversion")
    res.functions.append("Texture::convert")
    run.discharge_into(res, ex.obs, w.args + ins); run.collect(res, ex)

def main():
    ctx = run.Ctx("C04", "a pair of format and type is accepted exactly when it can be converted")
    try:
        tex.modules(); conv.modules()
        ctx.unit("isFormatValid(format, type)", tex.unit_valid)
        ctx.unit("isFormatValid(format, type, fileType)", unit_file)
        ctx.unit("createConverter", unit_create)
        ctx.unit("convert accepts", tex.unit_convert)
        ctx.unit("convert rejects", unit_reject)
        for kind in save.SAVERS:
            w = {"DDS": save.want_dds, "KTX": save.want_ktx, "PVR": save.pvr_for("Dim2D", False)}[kind]
            ctx.unit("%s can be written" % kind, save.writer_unit(kind, "Dim2D", False, w, False, True))
    except build.BuildError as e:
        ctx.unit("extraction", lambda res, e=e: (_ for _ in ()).throw(e))
    ctx.native.append(("every pair of enumerators through the public API", savecheck.native("tables")))
    ctx.assumptions += ["the compressed formats' converters are not part of this build (no ISPC, S3TC, ETC, ASTC, PVRTC)", "Converter::convert returns true exactly if createConverter makes a converter (its contract, decided by C02)", "imagesComplete() by its contract (C07)", "no exceptions (allocation succeeds)"]
    return run.finish(ctx, run.run_units(ctx))
