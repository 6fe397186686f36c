"""generateMipmaps on 3D textures, by symbolic execution of its real code with the loops unrolled: one run per pattern of custom images (which levels have
them, once or continued, complete or not); any width and height of the chain, any images and filter.  generateMips3d by contract."""
import re, itertools
from concurrent.futures import ThreadPoolExecutor
from vc import term as T, execu as X, run, build
from . import tex
from .tex import C32, C64, E, Z64, Fr, tex_mod, slot_value, bool_of
from .mips import operations, call
VI = r"^std::vector<cuttlefish::Image, std::allocator<cuttlefish::Image> >::"
NOIN = [r"generateMips3d\(", VI + r"(operator=|_M_move_assign|~vector|clear|resize|operator\[\])"]
_p = {}
def modules():
    """Texture.cpp once more, with the functions that are contracts only here kept apart"""
    if "m" not in _p: _p["m"] = [build.ir("lib/src/Texture.cpp", tex.NOIN + NOIN)]
    return _p["m"]
def v_mips3d(src, d, w, h, n, cs, filt): return T.uf("mips3d.%d" % len(src), list(src) + [d, w, h, n, cs, filt], 64)
def size(ex, st, p): 
    n = tex.vec_size(ex, st, p, 8)
    if not T.isc(n): raise X.Unsupported("list of images whose length depends on the input")
    return n.x
def items(ex, fr, st, p): 
    (b, o) = tex.vec_bounds(ex, st, p)[0].single() if size3(ex, st, p) else (None, Z64)
    return [ex.load(fr, st, ("int", 64), X.ptr(b, T.add(o, C64(8*i)))) for i in range(size3(ex, st, p))]
def size3(ex, st, p):
    """the length of a list of images; no storage means empty"""
    bg, en = tex.vec_bounds(ex, st, p)
    if all(b is None for c, b, o in bg.cases): return 0
    return size(ex, st, p)
def fill(ex, fr, st, p, vals):
    """the list at p gets these images, in storage of its own (never that of another list it was swapped with)"""
    (b, o) = p.single(); h = tex.new_heap(ex, st, C64(8*max(len(vals), 1))); end = X.ptr(h, C64(8*len(vals)))
    for k, q in ((0, X.ptr(h)), (8, end), (16, end)): ex.write(st, b, T.add(o, C64(k)), 8, q, fr.mod)
    for i, v in enumerate(vals): ex.store(fr, st, ("int", 64), v, X.ptr(h, C64(8*i)))
def lists():
    """std::vector<Image> as a value: resize keeps the elements and adds empty images, assignment copies or takes them"""
    def resize(ex, fr, st, ins, dem, v):
        (b, o) = v[0].single()
        if not b.name.startswith("alloca") or not T.isc(v[1]): return tex.c_resize(ex, fr, st, ins, dem, v)
        old = items(ex, fr, st, v[0]); n = v[1].x
        if n > 64: raise X.Unsupported("list of %d images" % n)
        fill(ex, fr, st, v[0], (old + [Z64]*n)[:n])
    def assign(ex, fr, st, ins, dem, v): fill(ex, fr, st, v[0], items(ex, fr, st, v[1])); return v[0]
    def move(ex, fr, st, ins, dem, v):
        x = items(ex, fr, st, v[1]); fill(ex, fr, st, v[1], []); fill(ex, fr, st, v[0], x); return v[0]
    return [(re.compile(VI + r"resize\(unsigned long\)$"), resize), (re.compile(VI + r"~vector\(\)$"), lambda *a: None),
            (re.compile(VI + r"operator=\(std::vector.* const&\)$"), assign), (re.compile(VI + r"(operator=\(std::vector.*&&\)|_M_move_assign\(.*)$"), move)]
def contract(w):
    def g(ex, fr, st, ins, dem, v):
        """generateMips3d(out, previous level resized, width, height, depth, colour space, filter): out gets depth images of that size and colour space"""
        src = items(ex, fr, st, v[1]); n = v[4]
        if not T.isc(n) or not src: raise X.Unsupported("generateMips3d with a depth that depends on the input or no source")
        for i, s in enumerate(src):
            ex.oblige(st, "generateMips3d is given images of the level's width and height", T.and_(T.ne(s, Z64), T.eq(T.uf("img.width", [s], 32), v[2]), T.eq(T.uf("img.height", [s], 32), v[3])), "pre", w.args)
            ex.oblige(st, "generateMips3d is given float images", T.eq(T.uf("img.format", [s], 32), C32(E("Image::Format::RGBAF"))), "pre", w.args)
        out = [v_mips3d(src, C32(i), v[2], v[3], n, v[5], v[6]) for i in range(n.x)]
        for y in out:
            st.assume = st.assume + [T.ne(y, Z64)]; tex.facts_like(st, y, y, fmt=C32(E("Image::Format::RGBAF")), w=v[2], h=v[3], cs=v[5])
        fill(ex, fr, st, v[0], out)
    return [(re.compile(SIG), g)]
SIG = r"generateMips3d\(std::vector<cuttlefish::Image, [^&]*>&, std::vector<cuttlefish::Image, [^&]*> const&, unsigned int, unsigned int, unsigned int, cuttlefish::ColorSpace, cuttlefish::Image::ResizeFilter\)$"
ONCE, CONT, BROKEN, MIXED = "once", "continue", "incomplete", "mixed"
def patterns(top, dp, n):
    """per level: no custom images, all of them (once or continued), and every way of giving only some of them or mixing the modes"""
    per = []
    for m in range(1, n):
        k = max(dp >> m, 1); l = [None, (ONCE,)*k, (CONT,)*k]
        per.append(l)
    good = list(itertools.product(*per)); bad = []
    for m in range(1, n):
        k = max(dp >> m, 1)
        for miss in range(k):
            if k == 1: break
            bad.append(tuple([None]*(m - 1) + [tuple(None if i == miss else ONCE for i in range(k))] + [None]*(n - 1 - m)))
            bad.append(tuple([None]*(m - 1) + [tuple(CONT if i == miss else ONCE for i in range(k))] + [None]*(n - 1 - m)))
    return good, bad
def unit(top, dp, old, levels):
    def go(res):
        prog = X.Program(modules()); tex._m["P"] = prog; tex._m["mods"] = modules()
        tex.find(SIG)       # undecided if its signature is another one: the contract is about these arguments
        n = min(max(levels, 1), top); good, bad = patterns(top, dp, n)
        for pat in good + bad: one(res, top, dp, old, levels, n, pat, pat in good)
        res.functions += ["Texture::generateMipmaps (bounded: shapes listed)"]
    return go
def one(res, top, dp, old, levels, n, pat, accepted):
    ex = X.Executor(tex.modules(), opts={"unroll_bounded": 40}); w = tex.World(ex); RGBAF = C32(E("Image::Format::RGBAF"))
    w.dim, w.d, w.req = C32(E("Texture::Dimension::Dim3D")), C32(dp), C32(old); w.is3d, w.cube = T.TRUE, T.FALSE
    w.args = [w.dim, w.w, w.h, w.d, w.req, w.cs]; w.max = C32(top)
    w.valid = T.and_(T.ne(w.w, C32(0)), T.ne(w.h, C32(0)), T.eq(T.lshr(tex.umax(tex.umax(w.w, w.h), w.d), C32(top - 1)), C32(1)))
    w.L = C32(min(max(old, 1), top)); w.F = C32(1)
    mod = tex_mod(); fr = Fr(mod); filt = T.var("filter", 32)
    nodes = [(m, d, pat[m - 1][d]) for m in range(1, n) if pat[m - 1] for d in range(len(pat[m - 1])) if pat[m - 1][d]]
    img = [T.var("custom%d.image" % i, 64) for i in range(len(nodes))]; has = [T.var("custom%d.present" % i, 0) for i in range(len(nodes))]
    base = [X.Base("node%d" % i) for i in range(len(nodes))]
    def found(ex, fr_, st, ins, dem, v):
        k = [ex.load(fr_, st, ("int", 32), X.Ptr([(c, b, T.add(of, C64(o))) for c, b, of in v[1].cases])) for o in (0, 4, 8)]
        if not all(map(T.isc, k)): raise X.Unsupported("key of a custom image that depends on the input")
        for i, (m, d, r) in enumerate(nodes):
            if [x.x for x in k] == [0, m, d]: return X.ptr(base[i])
        return X.Ptr([(T.TRUE, None, Z64)])
    def maxl(ex, fr_, st, ins, dem, v):
        ex.oblige(st.fork(), "the level count of this texture is asked for", T.and_(*[T.eq(a, b) for a, b in zip(v, (w.dim, w.w, w.h, w.d))]), "pre", w.args); return C32(top)
    ex.contracts[:0] = contract(w) + lists() + operations() + [(re.compile(r"^cuttlefish::Texture::maxMipmapLevels\("), maxl), (re.compile(r"^std::_Hashtable<cuttlefish::Texture::ImageIndex.*>::find\("), found)]
    st = w.made(); ex.foralls.clear(); del ex.obs[:]
    NUL = X.Ptr([(T.TRUE, None, Z64)])
    for i, (m, d, r) in enumerate(nodes):
        ex.write(st, X.Base("custimg%d" % i), Z64, 8, img[i], mod)
        ex.write(st, base[i], Z64, 8, X.ptr(base[i + 1]) if i + 1 < len(nodes) else NUL, mod)
        for o, k in zip((0, 4, 8), (0, m, d)): ex.write(st, base[i], C64(8 + o), 4, C32(k), mod)
        ex.write(st, base[i], C64(24), 8, X.Ptr([(has[i], X.Base("custimg%d" % i), Z64), (T.not_(has[i]), None, Z64)]), mod)
        ex.write(st, base[i], C64(32), 4, C32(E("Texture::MipReplacement::" + ("Once" if r == ONCE else "Continue"))), mod)
    ex.write(st, X.Base("custom"), C64(16), 8, X.ptr(base[0]) if nodes else NUL, mod)
    before = {d: slot_value(w, st, C32(0), C32(d), C32(0)) for d in range(dp)}
    # places hold RGBAF images of the level's size in the texture's colour space (C07)
    for v in before.values(): tex.facts_like(st, v, v, fmt=RGBAF, w=w.w, h=w.h, cs=w.cs)
    st1, r = call(w, st, [filt, C32(levels), X.ptr(X.Base("custom"))]); r = bool_of(r)
    ins = w.args + [filt] + img + has
    what = "generateMipmaps(3D, chain of %d, depth %d, %d levels, custom images %s)" % (top, dp, levels, [(m, d, k) for m, d, k in nodes])
    ok = T.and_(*[T.ne(v, Z64) for v in before.values()], *[T.and_(h, T.ne(i, Z64)) for h, i in zip(has, img)])
    ex.oblige(st1, what + ": succeeds exactly with complete base images and valid, complete custom images", T.iff(r, ok if accepted else T.FALSE), "post", ins)
    gd = st1.fork(); gd.pc = T.and_(st1.pc, ok); bd = st1.fork(); bd.pc = T.and_(st1.pc, T.not_(ok))
    s, c = w.call(bd, r"^cuttlefish::Texture::mipLevelCount\(\) const$", [])
    ex.oblige(s, what + ": a call without all images keeps the level count", T.eq(c, w.L), "post", ins)
    if accepted:
        w.L = C32(n)
        s, c = w.call(gd, r"^cuttlefish::Texture::mipLevelCount\(\) const$", []); ex.oblige(s, what + ": the level count", T.eq(c, C32(n)), "post", ins)
        s, c = w.call(gd, r"^cuttlefish::Texture::converted\(\) const$", []); ex.oblige(s, what + ": earlier converted data is gone", T.not_(bool_of(c)), "post", ins)
        src = [before[d] for d in range(dp)]; facts = []
        for d in range(dp): ex.oblige(gd, what + ": base image %d is unchanged" % d, T.eq(slot_value(w, gd, C32(0), C32(d), C32(0)), before[d]), "frame", ins)
        for m in range(1, n):
            W, H, D = tex.shr1(w.w, C32(m)), tex.shr1(w.h, C32(m)), max(dp >> m, 1); inp = []
            for x in src: y = tex.v_resize(x, W, H, filt); facts.append(T.implies(T.ne(x, Z64), T.ne(y, Z64))); inp.append(y)
            gen = [v_mips3d(inp, C32(d), W, H, C32(D), w.cs, filt) for d in range(D)]; want = gen
            for g in gen: facts.append(T.ne(g, Z64))
            if pat[m - 1]:
                want = []
                for d in range(D):
                    i = nodes.index((m, d, pat[m - 1][d])); x = img[i]
                    a = tex.v_resize(x, W, H, filt); b = tex.v_convert(a, RGBAF); tex.facts_like(gd, b, a, fmt=RGBAF); tex.facts_like(gd, a, x, w=W, h=H); cu = tex.v_cs(b, w.cs)
                    facts += [T.implies(T.ne(p, Z64), T.ne(q, Z64)) for p, q in ((x, a), (a, b), (b, cu))]; want.append(cu)
            for d in range(D):
                q = gd.fork(); q.assume = q.assume + facts
                ex.oblige(q, what + ": slice %d of level %d comes from its own source" % (d, m), T.eq(slot_value(w, q, C32(m), C32(d), C32(0)), want[d]), "post", ins)
            src = gen if pat[m - 1] and pat[m - 1][0] == ONCE else want
    run.discharge_into(res, ex.obs, ins); run.collect(res, ex)
