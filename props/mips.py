"""generateMipmaps on textures that are not 3D, by symbolic execution of its real code with every loop unrolled (bounded: the listed shapes, up to
`nodes` custom images with arbitrary keys, modes and images); Image's operations, std::vector and unordered_map::find by their contracts."""
import re
from vc import term as T, execu as X, run
from . import tex
from .tex import C32, C64, E, Z64, Fr, tex_mod, find, slot_value, bool_of
def shape(w, dim, top, dp, old):
    """any width and height whose largest side has `top` bits (a chain of `top` levels), dp layers, initialised with `old` levels"""
    w.dim, w.d, w.req = C32(E("Texture::Dimension::" + dim)), C32(dp), C32(old)
    w.is3d = T.FALSE; w.cube = T.TRUE if dim == "Cube" else T.FALSE
    w.args = [w.dim, w.w, w.h, w.d, w.req, w.cs]; w.max = C32(top)
    w.valid = T.and_(T.ne(w.w, C32(0)), T.ne(w.h, C32(0)), T.eq(T.lshr(tex.umax(w.w, w.h), C32(top - 1)), C32(1)))
    w.L = C32(min(max(old, 1), top)); w.F = C32(6 if dim == "Cube" else 1)
def operations():
    """Image's operations (tex.img_contracts), which succeed on a valid image"""
    out = []
    for rx, f in tex.img_contracts():
        if re.search(r"resize|convert", rx.pattern) or "changeColorSpace" in rx.pattern:
            def g(ex, fr, st, ins, dem, v, f=f, obj="changeColorSpace" in rx.pattern):
                x = tex.img_get(ex, fr, st, v[0 if obj else 1]); r = f(ex, fr, st, ins, dem, v); y = tex.img_get(ex, fr, st, v[0])
                st.assume = st.assume + [T.implies(T.ne(x, Z64), T.ne(y, Z64))]; return r
            out.append((rx, g))
        else: out.append((rx, f))
    return out
def unit(dim, top, dp, old, levels, nodes):
    def go(res):
        ex = X.Executor(tex.modules(), opts={"unroll_bounded": 40}); w = tex.World(ex); shape(w, dim, top, dp, old)
        mod = tex_mod(); fr = Fr(mod); RGBAF = C32(E("Image::Format::RGBAF"))
        keys = [[T.var("custom%d.%s" % (i, n), 32) for n in ("face", "level", "layer")] for i in range(nodes)]
        mode = [T.var("custom%d.mode" % i, 32) for i in range(nodes)]; img = [T.var("custom%d.image" % i, 64) for i in range(nodes)]; has = [T.var("custom%d.present" % i, 0) for i in range(nodes)]
        count = T.var("customCount", 32); filt = T.var("filter", 32)
        node = [X.Base("node%d" % i) for i in range(nodes)]
        def found(ex, fr_, st, ins, dem, v):
            k = [ex.load(fr_, st, ("int", 32), X.ptr_add(v[1], C64(o)) if hasattr(X, "ptr_add") else X.Ptr([(c, b, T.add(of, C64(o))) for c, b, of in v[1].cases])) for o in OFF]
            cases = []; none = T.TRUE
            for i in range(nodes):
                c = T.and_(none, T.ult(C32(i), count), *[T.eq(a, b) for a, b in zip(k, keys[i])])
                cases.append((c, node[i], Z64)); none = T.and_(none, T.not_(c))
            return X.norm_ptr(cases + [(none, None, Z64)])
        OFF = (0, 4, 8)
        def maxl(ex, fr_, st, ins, dem, v):
            """Texture::maxMipmapLevels (C06) for these arguments, which must be the texture's"""
            q = st.fork(); ex.oblige(q, "the level count of this texture is asked for", T.and_(T.eq(v[0], w.dim), T.eq(v[1], w.w), T.eq(v[2], w.h)), "pre", w.args)
            return C32(top)
        ex.contracts[:0] = operations() + [(re.compile(r"^cuttlefish::Texture::maxMipmapLevels\("), maxl),
                         (re.compile(r"^std::_Hashtable<cuttlefish::Texture::ImageIndex.*>::find\("), found)]
        st = w.made(); ex.foralls.clear(); del ex.obs[:]
        ptr = [X.Ptr([(has[i], X.Base("custimg%d" % i), Z64), (T.not_(has[i]), None, Z64)]) for i in range(nodes)]
        for i in range(nodes):
            ex.write(st, X.Base("custimg%d" % i), Z64, 8, img[i], mod)
            nxt = X.norm_ptr([(T.ult(C32(i + 1), count), node[i + 1], Z64), (T.not_(T.ult(C32(i + 1), count)), None, Z64)]) if i + 1 < nodes else X.Ptr([(T.TRUE, None, Z64)])
            ex.write(st, node[i], Z64, 8, nxt, mod)
            for o, k in zip(OFF, keys[i]): ex.write(st, node[i], C64(8 + o), 4, k, mod)
            ex.write(st, node[i], C64(24), 8, ptr[i], mod); ex.write(st, node[i], C64(32), 4, mode[i], mod)
        first = X.norm_ptr([(T.ult(C32(0), count), node[0], Z64), (T.eq(count, C32(0)), None, Z64)]) if nodes else X.Ptr([(T.TRUE, None, Z64)])
        ex.write(st, X.Base("custom"), C64(16), 8, first, mod)
        # a map: no two entries have the same key; an index by face and one without address the same place
        st.pc = T.and_(st.pc, T.ule(count, C32(nodes)))
        for i in range(nodes):
            for j in range(i): st.pc = T.and_(st.pc, T.not_(T.and_(*[T.eq(a, b) for a, b in zip(keys[i], keys[j])])))
            st.pc = T.and_(st.pc, T.ult(mode[i], C32(2)))
        n = min(max(levels, 1), top); D = max(dp, 1); F = w.F.x
        before = {(d, f): slot_value(w, st, C32(0), C32(d), C32(f)) for d in range(D) for f in range(F)}
        # places hold RGBAF images in the texture's colour space (C07)
        st1, r = call(w, st, [filt, C32(levels), X.ptr(X.Base("custom"))]); r = bool_of(r)
        ins = w.args + [filt, count] + sum(keys, []) + mode
        what = "generateMipmaps(%s, chain of %d, %d layers, %d levels)" % (dim, top, dp, levels)
        ok = T.and_(*[T.ne(v, Z64) for v in before.values()], *[T.implies(T.ult(C32(i), count), T.and_(has[i], T.ne(img[i], Z64))) for i in range(nodes)])
        ex.oblige(st1, what + ": succeeds exactly with complete base images and valid custom images", T.iff(r, ok), "post", ins)
        good = st1.fork(); good.pc = T.and_(st1.pc, ok); bad = st1.fork(); bad.pc = T.and_(st1.pc, T.not_(ok))
        s, c = w.call(bad, r"^cuttlefish::Texture::mipLevelCount\(\) const$", [])
        ex.oblige(s, what + ": a rejected call keeps the level count", T.eq(c, w.L), "post", ins)
        w.L = C32(n)
        s, c = w.call(good, r"^cuttlefish::Texture::mipLevelCount\(\) const$", [])
        ex.oblige(s, what + ": the level count", T.eq(c, C32(n)), "post", ins)
        s, c = w.call(good, r"^cuttlefish::Texture::converted\(\) const$", [])
        ex.oblige(s, what + ": earlier converted data is gone", T.not_(bool_of(c)), "post", ins)
        facts = []
        def nz(v, x): facts.append(T.implies(T.ne(x, Z64), T.ne(v, Z64))); return v
        for d in range(D):
            for f in range(F):
                ex.oblige(st1, what + ": the base image of layer %d face %d is unchanged" % (d, f), T.eq(slot_value(w, good, C32(0), C32(d), C32(f)), before[d, f]), "frame", ins)
                src = before[d, f]
                for m in range(1, n):
                    W, H = tex.shr1(w.w, C32(m)), tex.shr1(w.h, C32(m))
                    gen = tex.v_resize(src, W, H, filt); nz(gen, src); want = gen; src = gen
                    for i in range(nodes):
                        hit = T.and_(T.ult(C32(i), count), T.eq(keys[i][0], C32(f)), T.eq(keys[i][1], C32(m)), T.eq(keys[i][2], C32(d)))
                        a = tex.v_resize(img[i], W, H, filt); nz(a, img[i]); b = tex.v_convert(a, RGBAF); nz(b, a); tex.facts_like(good, b, a, fmt=RGBAF); tex.facts_like(good, a, img[i], w=W, h=H); cu = tex.v_cs(b, w.cs); nz(cu, b)
                        want = T.ite(hit, cu, want)
                        src = T.ite(T.and_(hit, T.eq(mode[i], C32(E("Texture::MipReplacement::Continue")))), cu, src)
                    q = good.fork(); q.assume = q.assume + facts
                    ex.oblige(q, what + ": level %d of layer %d face %d comes from its own source" % (m, d, f), T.eq(slot_value(w, q, C32(m), C32(d), C32(f)), want), "post", ins)
        res.functions += ["Texture::generateMipmaps (bounded: shapes listed)"]
        run.discharge_into(res, ex.obs, ins); run.collect(res, ex)
    return go
def call(w, st, args): return w.call(st, r"^cuttlefish::Texture::generateMipmaps\(", args)
