"""copies, moves and assignments of Image, Texture::CustomMipImage and Texture"""
import re
from vc import term as T, run, build, execu as X
from . import image as I, tex
from .image import C32, C64, Z64, fmt, E
OBS = ["width() const", "height() const", "format() const", "colorSpace() const", "bitsPerPixel() const"] + ["%s%s() const" % (c, k) for c in ("red", "green", "blue", "alpha") for k in ("Mask", "Shift")]
MEM = ("image", "bm1", "bits:bm1", "impl2")
def track(w):
    """objects are deleted at most once, and nothing that is still in use is deleted"""
    ex = w.ex; lib = w.lib
    def opnew(ex, fr, st, ins, dem, v):
        p = lib.opnew(ex, fr, st, ins, dem, v); n = "dead:" + p.single()[0].name; ex.init_hooks[n] = lambda *a: T.const(0, 8); return p
    def opdel(ex, fr, st, ins, dem, v):
        for c, b, o in v[0].cases:
            if b is None: continue
            s = st.fork(); s.pc = T.and_(st.pc, c); d = X.Base("dead:" + b.name, b.idx)
            ex.oblige(s, "deleted once", T.eq(ex.read(s, d, Z64, 1, ("int", 8)), T.const(0, 8)), "pre"); ex.write(st, d, Z64, 1, T.const(1, 8), fr.mod, c)
    for n in list(w.st.mem):
        if n.startswith("impl"): ex.init_hooks["dead:" + n] = lambda *a: T.const(0, 8)
    ex.contracts.insert(0, (re.compile(r"^operator new\(unsigned long\)$"), opnew)); ex.contracts.insert(0, (re.compile(r"^operator delete\("), opdel))
def alive(w, s, img, n):
    p = w.ex.read(s, img.single()[0], img.single()[1], 8, ("ptr",))
    for c, b, o in p.cases:
        if b is None: continue
        q = s.fork(); q.pc = T.and_(s.pc, c)
        if q.pc is T.FALSE: continue
        w.ex.oblige(q, n + ": not deleted", T.eq(w.ex.read(q, X.Base("dead:" + b.name, b.idx), Z64, 1, ("int", 8)), T.const(0, 8)), "post")
def report(w, s, img): return [call0(w, s, o, img) for o in OBS]
def call0(w, s, o, img): return I.call(w.ex, s, r"^cuttlefish::Image::%s$" % re.escape(o), [img])[1]
def same(w, s, img, was, px, n):
    """img is valid and reports exactly what the original reported in state st (under the path condition of s)"""
    ex = w.ex; ins = [w.W, w.H]
    ex.oblige(s, n + ": valid", I.valid(w, s, img), "post", ins); alive(w, s, img, n)
    v = s.fork(); v.pc = T.and_(s.pc, I.valid(w, s, img))
    for o, a, b in zip(OBS, report(w, v, img), was): ex.oblige(v, "%s: %s" % (n, o[:-6]), T.eq(a, b), "post", ins)
    q, x, y = I.coords(v, w.W, w.H, w); rd = I.pix(w, q, img, x, y, w.f)
    for o, z, e in px(x, y): ex.oblige(q, "%s: byte %d of every pixel" % (n, o), T.eq(rd(o, z), e), "post", ins + [x, y])
def pristine(w, s, n, st, mem=MEM):
    for m in I.loops_writes(st, s, w, ()):
        if m in mem or m in ["dead:" + k for k in mem]: w.ex.oblige(s, "%s: the original is not touched (%s)" % (n, m), T.FALSE, "frame")
def dst(w, st, kind, name="dest"):
    """an object that is an empty image, an image of its own, or raw memory"""
    b = X.Base(name); p = X.ptr(b)
    if kind == "raw": return st, p
    w.ex.write(st, b, Z64, 8, X.NULL)
    if kind == "empty": return st, p
    fails = w.lib.alloc_fails; w.lib.alloc_fails = False
    st, ok = I.call(w.ex, st, r"^cuttlefish::Image::initialize\(", [p, C32(fmt("RGB8")), C32(7), C32(3), I.CS(1)]); w.lib.alloc_fails = fails
    return st, p
COPY = r"^cuttlefish::Image::Image\(cuttlefish::Image const&\)$"; ASSIGN = r"^cuttlefish::Image::operator=\(cuttlefish::Image const&\)$"
MOVE = r"^cuttlefish::Image::Image\(cuttlefish::Image&&\)$"; MASSIGN = r"^cuttlefish::Image::operator=\(cuttlefish::Image&&\)$"
def start(f, cs=None):
    w = I.World(f, cs=cs); track(w); st = w.st
    was = report(w, st, w.img)
    raw = lambda x, y: I.same_bytes(f, w.raw(st, w.bm, x, w.row(y)))
    return w, st, was, raw
def unit_image(f):
    def go(res):
        for fn, kind in ((COPY, "raw"), (ASSIGN, "empty"), (ASSIGN, "own")):
            w, st, was, raw = start(f); ex = w.ex; n = "%s copy %s" % (f, {"raw": "construction", "empty": "assignment to an invalid image", "own": "assignment to another image"}[kind])
            st, d = dst(w, st, kind); s, _ = I.call(ex, st, fn, [d, w.img]); ins = [w.W, w.H]
            pristine(w, s, n, st); same(w, s, d, was, raw, n); same(w, s, w.img, was, raw, n + ", the original")
            # a later modification of either one
            ptr, c = I.color(ex, s); a, b = T.var("ax", 32), T.var("ay", 32); v = s.fork(); v.pc = T.and_(s.pc, I.valid(w, s, d))
            m, _ = I.call(ex, v, r"^cuttlefish::Image::setPixel\(", [d, a, b, ptr, T.FALSE]); same(w, m, w.img, was, raw, n + ", the original after the copy changes")
            m, _ = I.call(ex, v, r"^cuttlefish::Image::setPixel\(", [w.img, a, b, ptr, T.FALSE]); same(w, m, d, was, raw, n + ", the copy after the original changes")
            # destruction of either one
            for rx, t in ((r"^cuttlefish::Image::reset\(\)$", "reset"), (r"^cuttlefish::Image::~Image\(\)$", "destroyed")):
                m, _ = I.call(ex, v, rx, [w.img]); same(w, m, d, was, raw, "%s, the original %s" % (n, t))
                m, _ = I.call(ex, v, rx, [d]); same(w, m, w.img, was, raw, "%s, the copy %s" % (n, t))
            run.discharge_into(res, ex.obs, ins); run.collect(res, ex)
        for fn, kind in ((MOVE, "raw"), (MASSIGN, "empty"), (MASSIGN, "own")):
            w, st, was, raw = start(f); ex = w.ex; n = "%s move %s" % (f, {"raw": "construction", "empty": "assignment to an invalid image", "own": "assignment to another image"}[kind])
            st, d = dst(w, st, kind); s, _ = I.call(ex, st, fn, [d, w.img]); ins = [w.W, w.H]
            same(w, s, d, was, raw, n); ex.oblige(s, n + ": the source is an invalid image", T.not_(I.valid(w, s, w.img)), "post", ins)
            m, r = I.call(ex, s, r"^cuttlefish::Image::initialize\(", [w.img, C32(fmt("RGB8")), C32(4), C32(2), I.CS(0)])
            ex.oblige(m, n + ": the source can be initialised again", T.and_(I.tbool(r), I.valid(w, m, w.img)), "post", ins); same(w, m, d, was, raw, n + ", the source used again")
            m, _ = I.call(ex, s, r"^cuttlefish::Image::~Image\(\)$", [w.img]); same(w, m, d, was, raw, n + ", the source destroyed")
            m, _ = I.call(ex, s, ASSIGN, [w.img, d]); same(w, m, d, was, raw, n + ", copied back"); same(w, m, w.img, was, raw, n + ", the copy back")
            run.discharge_into(res, ex.obs, ins); run.collect(res, ex)
        for fn, kind in ((COPY, "raw"), (ASSIGN, "empty"), (ASSIGN, "own")):
            w, st, was, raw = start(f); w.lib.alloc_fails = True; st, d = dst(w, st, kind); s, _ = I.call(w.ex, st, fn, [d, w.img]); n = "%s copy, out of memory (%s)" % (f, kind)
            same(w, s, w.img, was, raw, n + ": the original"); q = s.fork(); q.pc = T.and_(s.pc, I.valid(w, s, d)); same(w, q, d, was, raw, n + ": the copy if there is one")
            run.discharge_into(res, w.ex.obs, [w.W, w.H]); run.collect(res, w.ex)
        for fn, t in ((ASSIGN, "copy"), (MASSIGN, "move")):
            w, st, was, raw = start(f); s, _ = I.call(w.ex, st, fn, [w.img, w.img]); same(w, s, w.img, was, raw, "%s self-assignment (%s)" % (f, t))
            run.discharge_into(res, w.ex.obs, [w.W, w.H]); run.collect(res, w.ex)
        res.functions += ["Image::Image(const Image&)", "Image::operator=(const Image&)", "Image::Image(Image&&)", "Image::operator=(Image&&)", "Image::reset", "Image::~Image", "Image::Impl::create"]
    return go
def unit_invalid(res):
    """copies and moves of an invalid image are invalid"""
    for fn, kind in ((COPY, "raw"), (ASSIGN, "empty"), (ASSIGN, "own"), (MOVE, "raw"), (MASSIGN, "empty"), (MASSIGN, "own")):
        w = I.World("RGBA8"); track(w); ex = w.ex; st = X.State(); img = X.ptr(X.Base("none")); ex.write(st, X.Base("none"), Z64, 8, X.NULL)
        st, d = dst(w, st, kind); s, _ = I.call(ex, st, fn, [d, img])
        ex.oblige(s, "%s of an invalid image to %s memory: invalid" % (fn[1:], kind), T.and_(T.not_(I.valid(w, s, d)), T.not_(I.valid(w, s, img))), "post")
        run.discharge_into(res, ex.obs, []); run.collect(res, ex)

# ---------------------------------------------------------------- textures
TOBS = [("isValid", "isValid() const", 0), ("dimension", "dimension() const", 0), ("isArray", "isArray() const", 0), ("width", "width(unsigned int) const", 1), ("height", "height(unsigned int) const", 1), ("depth", "depth(unsigned int) const", 1),
        ("mipLevelCount", "mipLevelCount() const", 0), ("faceCount", "faceCount() const", 0), ("colorSpace", "colorSpace() const", 0), ("format", "format() const", 0), ("type", "type() const", 0), ("alphaType", "alphaType() const", 0), ("converted", "converted() const", 0)]
class TWorld:
    """textures with arbitrary fields; the two lists of an Impl are opaque values that std::vector copies"""
    def __init__(self):
        self.P = tex.modules(); ex = self.ex = X.Executor(self.P); self.n = 0; self.lists = set()
        C = lambda rx, h: ex.contracts.append((re.compile(rx), h))
        C(r"^std::vector<.*>::(vector|operator=)\(std::vector<.*> const&\)$", self.veccopy); C(r"^std::vector<.*>::(vector|operator=)\(std::vector<.*>&&\)$", self.vecmove); C(r"^std::vector<.*>::vector\(\)$", self.vecnew); C(r"^std::vector<.*>::(swap\(|~vector\(\))", self.vecswap)
        C(r"^operator new\(unsigned long\)$", self.opnew); C(r"^operator delete\(", lambda *a: None)
        C(r"^std::default_delete<cuttlefish::Texture::Impl>::operator\(\)", self.delete)
        C(r"^cuttlefish::Texture::Impl::~Impl\(\)$", lambda *a: None)
        ex.contracts += tex.img_contracts() + [(re.compile(r"^cuttlefish::Texture::maxMipmapLevels\("), tex.c_maxlevels)]
    def impl(self, name):
        b = X.Base(name)
        def hook(ex, base, off, size, ty):
            if not T.isc(off): return None
            word = lambda o: T.var("%s+%d" % (name, o), 32)
            o = off.x & ~3; v = word(o)
            while (o + 4) < off.x + size: o += 4; v = T.concat(word(o), v)
            r = off.x & 3
            return T.extract(v, 8 * (r + size) - 1, 8 * r)
        self.ex.init_hooks[name] = hook; self.ex.init_hooks["dead:" + name] = lambda *a: T.const(0, 8); return b
    def opnew(self, ex, fr, st, ins, dem, v):
        self.n += 1; b = self.impl("new%d" % self.n); ex.sizes[b.name] = lambda b, sz=v[0]: sz; return X.ptr(b)
    def delete(self, ex, fr, st, ins, dem, v):
        for c, b, o in v[-1].cases:
            if b is None: continue
            s = st.fork(); s.pc = T.and_(st.pc, c); d = X.Base("dead:" + b.name)
            ex.oblige(s, "a texture's data is deleted once", T.eq(ex.read(s, d, Z64, 1, ("int", 8)), T.const(0, 8)), "pre"); ex.write(st, d, Z64, 1, T.const(1, 8), fr.mod, c)
    def words(self, st, p): (b, o) = p.single(); self.lists.add(o.x); return [self.ex.read(st, b, C64(o.x + i), 8, ("int", 64)) for i in (0, 8, 16)]
    def put(self, st, p, v, mod): (b, o) = p.single(); self.lists.add(o.x); [self.ex.write(st, b, C64(o.x + 8 * i), 8, x, mod) for i, x in enumerate(v)]
    def veccopy(self, ex, fr, st, ins, dem, v): self.put(st, v[0], self.words(st, v[1]), fr.mod); return v[0]
    def vecmove(self, ex, fr, st, ins, dem, v): x = self.words(st, v[1]); self.put(st, v[1], [Z64] * 3, fr.mod); self.put(st, v[0], x, fr.mod); return v[0]
    def vecnew(self, ex, fr, st, ins, dem, v): self.put(st, v[0], [Z64] * 3, fr.mod)
    def vecswap(self, ex, fr, st, ins, dem, v):
        if len(v) == 1: return None
        x, y = self.words(st, v[0]), self.words(st, v[1]); self.put(st, v[0], y, fr.mod); self.put(st, v[1], x, fr.mod)
    def call(self, st, rx, args):
        r = tex.call(self.ex, st, tex.find(rx), args)
        if r is None: raise X.Unsupported("does not return: " + rx)
        return r
    def obs(self, st, t, mip): return [self.call(st, r"^cuttlefish::Texture::%s$" % re.escape(sig), [t] + [mip] * k)[1] for _, sig, k in TOBS]
def teq(a, b): return (T.iff(tex.bool_of(a), tex.bool_of(b)) if a.w != b.w or a.w == 0 else T.eq(a, b))
def unit_texture(res):
    R = r"^cuttlefish::Texture::"
    for fn, kind, how in (("Texture(cuttlefish::Texture const&)", "raw", "copy"), ("operator=(cuttlefish::Texture const&)", "empty", "copy"), ("operator=(cuttlefish::Texture const&)", "own", "copy"), ("operator=(cuttlefish::Texture const&)", "self", "copy"),
                          ("Texture(cuttlefish::Texture&&)", "raw", "move"), ("operator=(cuttlefish::Texture&&)", "empty", "move"), ("operator=(cuttlefish::Texture&&)", "own", "move"), ("operator=(cuttlefish::Texture&&)", "self", "move")):
        for src in ("valid", "invalid"):
            w = TWorld(); ex = w.ex; st = X.State(); mip = T.var("mip", 32); st.pc = T.ult(mip, C32(32)); t = X.ptr(X.Base("tex")); d = X.ptr(X.Base("dest")); ins = [mip]
            ex.write(st, X.Base("tex"), Z64, 8, X.ptr(w.impl("impl0")) if src == "valid" else X.NULL)
            if kind == "own": ex.write(st, X.Base("dest"), Z64, 8, X.ptr(w.impl("impl1")))
            if kind == "empty": ex.write(st, X.Base("dest"), Z64, 8, X.NULL)
            if kind == "self": d = t
            n = "texture %s (%s source, %s target)" % (how, src, kind); was = w.obs(st, t, mip)
            fields = lambda s, p: [ex.read(s, b, C64(o), 8, ("int", 64)) for c, b, z in ex.read(s, p.single()[0], Z64, 8, ("ptr",)).cases if b is not None for k in sorted(w.lists) for o in (k, k + 8, k + 16)]
            s, _ = w.call(st, R + re.escape(fn) + "$", [d, t])
            def same(q, p, m):
                ex.oblige(q, "%s: %s valid exactly if the original was" % (n, m), teq(w.call(q, R + r"isValid\(\) const$", [p])[1], T.TRUE if src == "valid" else T.FALSE), "post", ins)
                for (o, _, _), a, b in zip(TOBS, w.obs(q, p, mip), was): ex.oblige(q, "%s: %s: %s" % (n, m, o), teq(a, b), "post", ins)
                if src == "valid":
                    v = ex.read(q, p.single()[0], Z64, 8, ("ptr",))
                    for c, b, o in v.cases:
                        z = q.fork(); z.pc = T.and_(q.pc, c)
                        if b is None: ex.oblige(z, "%s: %s: has data" % (n, m), T.FALSE, "post"); continue
                        ex.oblige(z, "%s: %s: its data is not deleted" % (n, m), T.eq(ex.read(z, X.Base("dead:" + b.name), Z64, 1, ("int", 8)), T.const(0, 8)), "post")
                        for k in sorted(w.lists):
                            for i in (0, 8, 16): ex.oblige(z, "%s: %s: the list at %d" % (n, m, k), T.eq(ex.read(z, b, C64(k + i), 8, ("int", 64)), ex.read(st, X.Base("impl0"), C64(k + i), 8, ("int", 64))), "post")
            same(s, d, "the target")
            if kind != "self":
                if how == "copy": same(s, t, "the original")
                else:
                    _, r = w.call(s, R + r"isValid\(\) const$", [t]); ex.oblige(s, n + ": the source is an invalid texture", T.not_(tex.bool_of(r)), "post")
                if src == "valid":
                    a, b = [[c[1].name for c in ex.read(s, p.single()[0], Z64, 8, ("ptr",)).cases if c[1] is not None] for p in (d, t)]
                    ex.oblige(s, n + ": no shared data", T.FALSE if set(a) & set(b) else T.TRUE, "post")
                    q, _ = w.call(s, R + r"reset\(\)$", [t]); same(q, d, "the target after the original is reset")
                    q, _ = w.call(s, R + r"~Texture\(\)$", [t]); same(q, d, "the target after the original is destroyed")
                    if how == "copy": q, _ = w.call(s, R + r"reset\(\)$", [d]); same(q, t, "the original after the copy is reset")
                    else: q, _ = w.call(s, R + r"operator=\(cuttlefish::Texture const&\)$", [t, d]); same(q, t, "the source, copied back"); same(q, d, "the target, copied back")
            if src == "valid" and how == "copy" and kind != "self" and len(w.lists) != 2: raise X.Unsupported("%d lists are copied" % len(w.lists))
            run.discharge_into(res, ex.obs, ins); run.collect(res, ex)
    res.functions += ["Texture::Texture(const Texture&)", "Texture::operator=(const Texture&)", "Texture::Texture(Texture&&)", "Texture::operator=(Texture&&)", "Texture::reset", "Texture::~Texture"]
OFFS = ["offsetof(Texture::CustomMipImage, %s)" % m for m in ("image", "replacement", "imageStorage")]
def unit_custom(res):
    """CustomMipImage: an external image stays external, an own image is copied or moved with it"""
    R = r"^cuttlefish::Texture::CustomMipImage::"; off = build.enum_values("cuttlefish/Texture.h", OFFS)
    oi, orr, os = [C64(off["offsetof(Texture::CustomMipImage, %s)" % m]) for m in ("image", "replacement", "imageStorage")]
    for fn, kind, how in (("CustomMipImage(cuttlefish::Texture::CustomMipImage const&)", "raw", "copy"), ("operator=(cuttlefish::Texture::CustomMipImage const&)", "own", "copy"), ("operator=(cuttlefish::Texture::CustomMipImage const&)", "external", "copy"), ("operator=(cuttlefish::Texture::CustomMipImage const&)", "self", "copy"),
                          ("CustomMipImage(cuttlefish::Texture::CustomMipImage&&)", "raw", "move"), ("operator=(cuttlefish::Texture::CustomMipImage&&)", "own", "move"), ("operator=(cuttlefish::Texture::CustomMipImage&&)", "external", "move"), ("operator=(cuttlefish::Texture::CustomMipImage&&)", "self", "move")):
        for src in ("own", "external"):
            w = TWorld(); ex = w.ex; st = X.State(); a, d = X.Base("a"), X.Base("d"); rep = T.var("replacement", 32); val = T.var("stored", 64); ext = X.ptr(X.Base("ext"))
            def make(b, kind, rep, val):
                ex.write(st, b, oi, 8, X.ptr(b, os) if kind == "own" else ext); ex.write(st, b, orr, 4, rep); ex.write(st, b, os, 8, val)
            make(a, src, rep, val)
            if kind in ("own", "external"): make(d, kind, T.var("replacement2", 32), T.var("stored2", 64))
            if kind == "self": d = a
            n = "custom mip image %s (%s image, %s target)" % (how, src, kind)
            s, _ = w.call(st, R + re.escape(fn) + "$", [X.ptr(d), X.ptr(a)])
            def check(b, m):
                ex.oblige(s, "%s: %s: replacement" % (n, m), T.eq(ex.read(s, b, orr, 4, ("int", 32)), rep), "post", [rep])
                p = ex.read(s, b, oi, 8, ("ptr",)); q = X.ptr(b, os) if src == "own" else ext
                ex.oblige(s, "%s: %s: image" % (n, m), ex.ptr_eq(p, q) if hasattr(ex, "ptr_eq") else T.or_(*[T.and_(c, T.eq(o, q.single()[1])) for c, bb, o in p.cases if bb is not None and bb.name == q.single()[0].name]), "post")
                if src == "own": ex.oblige(s, "%s: %s: contents" % (n, m), T.eq(ex.read(s, b, os, 8, ("int", 64)), val), "post", [val])
            check(d, "the target")
            if how == "copy" and kind != "self": check(a, "the original")
            run.discharge_into(res, ex.obs, [rep, val]); run.collect(res, ex)
    res.functions += ["Texture::CustomMipImage::" + f for f in ("CustomMipImage(const&)", "CustomMipImage(&&)", "operator=(const&)", "operator=(&&)")]
