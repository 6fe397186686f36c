"""Contracts of Texture.cpp: format tables, geometry, indexed access, value semantics."""
import re
from vc import term as T, smt, build, execu as X, run, evalt
C64, C32 = X.C64, lambda v: T.const(v, 32)

DIMS = ["Dim1D", "Dim2D", "Dim3D", "Cube"]
FILETYPES = ["Auto", "DDS", "KTX", "PVR"]
TYPES = ["UNorm", "SNorm", "UInt", "Int", "UFloat", "Float"]
COMPRESSED = {  # name: (block width, block height, bytes, has alpha, native sRGB, types, minimum width, minimum height)
    "BC1_RGB": (4, 4, 8, 0, 1, "U"), "BC1_RGBA": (4, 4, 8, 1, 1, "U"), "BC2": (4, 4, 16, 1, 1, "U"), "BC3": (4, 4, 16, 1, 1, "U"),
    "BC4": (4, 4, 8, 0, 0, "US"), "BC5": (4, 4, 16, 0, 0, "US"), "BC6H": (4, 4, 16, 0, 0, "uf"), "BC7": (4, 4, 16, 1, 1, "U"),
    "ETC1": (4, 4, 8, 0, 0, "U"), "ETC2_R8G8B8": (4, 4, 8, 0, 1, "U"), "ETC2_R8G8B8A1": (4, 4, 8, 1, 1, "U"), "ETC2_R8G8B8A8": (4, 4, 16, 1, 1, "U"),
    "EAC_R11": (4, 4, 8, 0, 0, "US"), "EAC_R11G11": (4, 4, 16, 0, 0, "US"),
    "PVRTC1_RGB_2BPP": (8, 4, 8, 0, 1, "U", 16, 8), "PVRTC1_RGBA_2BPP": (8, 4, 8, 1, 1, "U", 16, 8),
    "PVRTC1_RGB_4BPP": (4, 4, 8, 0, 1, "U", 8, 8), "PVRTC1_RGBA_4BPP": (4, 4, 8, 1, 1, "U", 8, 8),
    "PVRTC2_RGBA_2BPP": (8, 4, 8, 1, 1, "U", 16, 8), "PVRTC2_RGBA_4BPP": (4, 4, 8, 1, 1, "U", 8, 8)}
for b in "4x4 5x4 5x5 6x5 6x6 8x5 8x6 8x8 10x5 10x6 10x8 10x10 12x10 12x12".split():
    w, h = map(int, b.split("x")); COMPRESSED["ASTC_" + b] = (w, h, 16, 1, 1, "Uu")
STANDARD = ["R4G4", "R4G4B4A4", "B4G4R4A4", "A4R4G4B4", "R5G6B5", "B5G6R5", "R5G5B5A1", "B5G5R5A1", "A1R5G5B5", "R8", "R8G8", "R8G8B8", "B8G8R8",
            "R8G8B8A8", "B8G8R8A8", "A8B8G8R8", "A2R10G10B10", "A2B10G10R10", "R16", "R16G16", "R16G16B16", "R16G16B16A16", "R32", "R32G32", "R32G32B32",
            "R32G32B32A32", "B10G11R11_UFloat", "E5B9G9R9_UFloat"]
ALLFMT = STANDARD + list(COMPRESSED)
def std_types(f):
    if f in ("B10G11R11_UFloat", "E5B9G9R9_UFloat"): return ["UFloat"]
    if f in ("R8", "R8G8", "R8G8B8", "R8G8B8A8"): return ["UNorm", "SNorm", "UInt", "Int"]
    if f.startswith("R16"): return ["UNorm", "SNorm", "UInt", "Int", "Float"]
    if f.startswith("R32"): return ["UInt", "Int", "Float"]
    if f.startswith("A2"): return ["UNorm", "UInt"]
    return ["UNorm"]
def std_bytes(f): return sum(int(x) for x in re.findall(r"[RGBAE](\d+)", f)) // 8 if f[0] != "E" else 4
def facts(f):
    """block width, height, bytes, alpha, native sRGB, min width, min height"""
    if f in COMPRESSED:
        c = COMPRESSED[f]; mw, mh = c[6:8] if len(c) > 6 else c[:2]
        return dict(blockWidth=c[0], blockHeight=c[1], blockSize=c[2], hasAlpha=c[3], sRGB=c[4], minWidth=mw, minHeight=mh)
    return dict(blockWidth=1, blockHeight=1, blockSize=std_bytes(f), hasAlpha=int("A" in f), sRGB=int(f in ("R8G8B8", "B8G8R8", "R8G8B8A8", "B8G8R8A8", "A8B8G8R8")), minWidth=1, minHeight=1)

NOIN = [r"::resize\(", r"^cuttlefish::Texture::(isFormatValid|hasNativeSRGB|fileType|maxMipmapLevels|save)\(", r"::clear\(\)$", r"_M_default_append", r"Texture::Impl::~Impl", r"default_delete<cuttlefish::Texture::Impl>::operator", r"emptyImage", r"^std::vector<.*::operator\[\]\(",
        r"^std::basic_(ios|ostream|ofstream|ifstream|fstream|iostream|istream|filebuf|streambuf|stringbuf|stringstream|ostringstream)<.*>::", r"^std::ios_base::", r"^std::__cxx11::basic_(stringbuf|stringstream|ostringstream)<.*>::", r"^std::operator<< ?<", r"cuttlefish::readStreamData", r"^cuttlefish::save(Dds|Ktx|Pvr)\(", r"::(data|dataSize|format|type|alphaType|converted|width|height|depth|dimension|isArray|faceCount|mipLevelCount|colorSpace)\(.*\) const$"]
_m = {}
def modules():
    if "P" not in _m:
        from concurrent.futures import ThreadPoolExecutor
        srcs = ["lib/src/Texture.cpp", "lib/src/SaveDds.cpp", "lib/src/SaveKtx.cpp", "lib/src/SavePvr.cpp"]
        with ThreadPoolExecutor(4) as p: ms = list(p.map(lambda s: build.ir(s, NOIN), srcs))
        _m["mods"] = ms; _m["P"] = X.Program(ms)
        items = ["Texture::Format::" + f for f in ALLFMT] + ["Texture::Type::" + t for t in TYPES] + ["Texture::Dimension::" + d for d in DIMS] + ["Texture::FileType::" + t for t in FILETYPES] + ["Texture::Format::Unknown"] + \
                ["Texture::SaveResult::" + r for r in ("Success", "Invalid", "UnknownFormat", "Unsupported", "WriteError")] + ["Texture::Alpha::" + r for r in ("None", "Standard", "PreMultiplied", "Encoded")] + ["ColorSpace::Linear", "ColorSpace::sRGB", "Image::Format::RGBAF", "Image::Format::Invalid", "Texture::MipReplacement::Once", "Texture::MipReplacement::Continue"]
        _m["e"] = build.enum_values("cuttlefish/Texture.h", items)
        _m["id"] = {id(m): m for m in ms}
    return _m["P"]
def E(n): return _m["e"][n]
def fmt(n): return E("Texture::Format::" + n)

def find(rx, P=None):
    P = P or modules()
    r = [n for n, d in P.dem.items() if re.search(rx, d) and n in P.funcs]
    if len(r) != 1: raise X.Unsupported("function %s: %d candidates" % (rx, len(r)))
    return P.funcs[r[0]]

def call(ex, st, f, args):
    fr = X.Frame(f, ex.prog.cfg(f))
    if len(args) != len(f.params): raise X.Unsupported("signature of " + f.name)
    return ex.run_function(fr, st.fork(), args)

_heap = [0]
def new_heap(ex, st, size):
    _heap[0] += 1
    b = X.Base("heap%d" % _heap[0], tuple(X.ACTIVE))
    ex.sizes[b.name] = lambda b, sz=size: sz
    return b

def vec_elem(dem):
    """element size of the vector a member function belongs to (from its demangled name)"""
    m = re.match(r"^std::vector<(.*)>::", dem)
    d = m.group(1)
    if d.startswith("std::vector<"): return 24
    if d.startswith("cuttlefish::Image,"): return 8
    if d.startswith("unsigned char,"): return 1
    if d.startswith("std::pair<unsigned int, unsigned int>"): return 8
    if d.startswith(("std::unique_ptr<", "std::thread,")): return 8
    raise X.Unsupported("vector of " + d[:60])
def child(b, off):
    if T.isc(off) and not b.idx and not b.name.endswith("*"): return X.Base("%s.%d" % (b.name, off.x), ())
    return X.Base(b.name + ".*", b.idx + (off,))
def set_vec(ex, st, p, n, es, mod=None):
    for c, b, o in p.cases:
        ch = child(b, o)
        ex.write(st, b, o, 8, X.ptr(ch), mod, c)
        end = T.mulc(n, es)
        ex.write(st, b, T.add(o, C64(8)), 8, X.ptr(ch, end), mod, c)
        ex.write(st, b, T.add(o, C64(16)), 8, X.ptr(ch, end), mod, c)
def c_resize(ex, fr, st, ins, dem, v):
    """std::vector::resize(n): afterwards the vector has n elements (new ones value-initialised)"""
    set_vec(ex, st, v[0], v[1], vec_elem(dem), fr.mod)
    return None

def vec_bounds(ex, st, p):
    """(begin, end) pointers of the vector object p points at"""
    (b, o) = p.single()
    bg = live(ex, st, ex.read(st, b, o, 8, ("ptr",))); en = live(ex, st, ex.read(st, b, T.add(o, C64(8)), 8, ("ptr",)))
    return bg, en
def live(ex, st, p):
    """the cases of a pointer that the path condition does not rule out (decided by the solver)"""
    if len(p.cases) == 1: return p
    r = X.Ptr([x for x in p.cases if ex.decide(st, T.not_(x[0]), neg=False) is not True])
    if len(r.cases) == 1: r = X.Ptr([(T.TRUE,) + r.cases[0][1:]])
    return r
def vec_size(ex, st, p, es):
    bg, en = vec_bounds(ex, st, p)
    (b1, o1), (b2, o2) = bg.single(), en.single()
    if not X.same_base(b1, b2): raise X.Unsupported("vector with unrelated bounds")
    from vc import loops
    d = T.sub(o2, o1); q = loops.divc(d, es)
    return q[0] if q is not None and q[1] == 0 else T.udiv(d, C64(es))
def c_index(ex, fr, st, ins, dem, v):
    """std::vector::operator[](n): requires n < size(); the n-th element"""
    out = []
    es = vec_elem(dem)
    for c, b, o in live(ex, st, v[0]).cases:
        if b is None: ex.oblige(st, "a list that exists", T.not_(c), "bounds"); continue
        q = X.ptr(b, o); s = st.fork(); s.pc = T.and_(st.pc, c)
        ex.oblige(s, "index within the list", T.ult(v[1], vec_size(ex, s, q, es)), "bounds")
        bg, _ = vec_bounds(ex, s, q)
        out += [(T.and_(c, c2), b2, T.add(o2, T.mulc(v[1], es))) for c2, b2, o2 in bg.cases]
    return X.norm_ptr(out)

def c_clear(ex, fr, st, ins, dem, v):
    """std::vector::clear(): afterwards the vector is empty"""
    for c, b, o in live(ex, st, v[0]).cases:
        ex.write(st, b, T.add(o, C64(8)), 8, ex.read(st, b, o, 8, ("ptr",)), fr.mod, c)

def base_contracts():
    def opnew(ex, fr, st, ins, dem, v): return X.ptr(new_heap(ex, st, v[0]))
    return [(re.compile(r"^operator new\(unsigned long\)$"), opnew),
            (re.compile(r"^operator delete\("), lambda *a: None),
            (re.compile(r"emptyImage"), lambda *a: X.ptr(X.Base("empty"))),
            (re.compile(r"^__cxa_guard_acquire$"), lambda *a: X.fresh("guard", 32)),
            (re.compile(r"^__cxa_(guard_release|atexit)$"), lambda *a: T.const(0, 32)),
            (re.compile(r"^cuttlefish::Texture::Impl::~Impl\(\)$|^std::default_delete<cuttlefish::Texture::Impl>::operator\(\)"), lambda *a: None),
            (re.compile(r"^std::vector<.*>::resize\(unsigned long\)$"), c_resize),
            (re.compile(r"^std::vector<.*>::clear\(\)$"), c_clear),
            (re.compile(r"^std::vector<.*::operator\[\]\(unsigned long\)( const)?$"), c_index)]

def bool_of(v): return v if v.w == 0 else T.ne(v, T.const(0, v.w))
def bit(c): return T.const(int(bool(c)), 0)

def unit_table(fn, key):
    """fn(format) for every 32-bit value of the enumeration's type"""
    def go(res):
        P = modules(); ex = X.Executor(P)
        f = T.var("format", 32)
        g = find(r"^cuttlefish::Texture::%s\(cuttlefish::Texture::Format\)$" % fn)
        st, r = call(ex, X.State(), g, [f])
        res.functions.append("Texture::" + fn)
        known = []
        for n in ALLFMT:
            e = T.eq(f, C32(fmt(n))); known.append(T.not_(e))
            want = facts(n)[key]
            s = st.fork(); s.pc = T.and_(st.pc, e)
            ex.oblige(s, "%s(%s) = %d" % (fn, n, want), T.iff(bool_of(r), bit(want)) if key in ("hasAlpha",) else T.eq(r, T.const(want, r.w)), "post", (f,))
        s = st.fork(); s.pc = T.and_(st.pc, *known)
        ex.oblige(s, "%s is 0 for every other value" % fn, T.not_(bool_of(r)) if key == "hasAlpha" else T.eq(r, T.const(0, r.w)), "post", (f,))
        run.discharge_into(res, ex.obs, (f,)); run.collect(res, ex)
    return go

def unit_srgb(res):
    P = modules(); ex = X.Executor(P); f, t = T.var("format", 32), T.var("type", 32)
    st, r = call(ex, X.State(), find(r"^cuttlefish::Texture::hasNativeSRGB\("), [f, t])
    res.functions.append("Texture::hasNativeSRGB")
    want = T.and_(T.eq(t, C32(E("Texture::Type::UNorm"))), T.or_(*[T.eq(f, C32(fmt(n))) for n in ALLFMT if facts(n)["sRGB"]]))
    ex.oblige(st, "native sRGB exactly for the UNorm formats that have an sRGB variant", T.iff(bool_of(r), want), "post", (f, t))
    run.discharge_into(res, ex.obs, (f, t)); run.collect(res, ex)

def valid_term(f, t, config=()):
    out = []
    for n in STANDARD: out.append(T.and_(T.eq(f, C32(fmt(n))), T.or_(*[T.eq(t, C32(E("Texture::Type::" + x))) for x in std_types(n)])))
    return T.or_(*out)

def unit_valid(res):
    P = modules(); ex = X.Executor(P); f, t = T.var("format", 32), T.var("type", 32)
    st, r = call(ex, X.State(), find(r"^cuttlefish::Texture::isFormatValid\(cuttlefish::Texture::Format, cuttlefish::Texture::Type\)$"), [f, t])
    res.functions.append("Texture::isFormatValid(format, type)")
    ex.oblige(st, "valid exactly for the documented format and type pairs of this build", T.iff(bool_of(r), valid_term(f, t)), "post", (f, t))
    run.discharge_into(res, ex.obs, (f, t)); run.collect(res, ex)

# ---------------------------------------------------------------- abstract images (contracts of Image, see C13/C14/C17)
Z64 = C64(0)
def iw(v): return T.ite(T.eq(v, Z64), C32(0), T.uf("img.width", [v], 32))
def ih(v): return T.ite(T.eq(v, Z64), C32(0), T.uf("img.height", [v], 32))
def ifmt(v): return T.ite(T.eq(v, Z64), C32(E("Image::Format::Invalid")), T.uf("img.format", [v], 32))
def ics(v): return T.ite(T.eq(v, Z64), C32(E("ColorSpace::Linear")), T.uf("img.cs", [v], 32))
def v_convert(v, f): return T.ite(T.or_(T.eq(v, Z64), T.eq(ifmt(v), f)), v, T.uf("img.convert", [v, f], 64))
def v_cs(v, c): return T.ite(T.or_(T.eq(v, Z64), T.eq(ics(v), c)), v, T.uf("img.changeColorSpace", [v, c], 64))
def v_resize(v, w, h, f): return T.ite(T.eq(v, Z64), v, T.uf("img.resize", [v, w, h, f], 64))
def img_get(ex, fr, st, p): return ex.load(fr, st, ("int", 64), p)
def img_put(ex, fr, st, p, v): ex.store(fr, st, ("int", 64), v, p)
def facts_like(st, r, v, fmt=None, w=None, h=None, cs=None):
    """what the Image contracts say about a derived image r of v (when the operation succeeded)"""
    ok = T.ne(r, Z64)
    g = [T.implies(ok, T.eq(T.uf("img.width", [r], 32), w if w is not None else iw(v))), T.implies(ok, T.eq(T.uf("img.height", [r], 32), h if h is not None else ih(v)))]
    g.append(T.implies(ok, T.eq(T.uf("img.format", [r], 32), fmt if fmt is not None else ifmt(v))))
    g.append(T.implies(ok, T.eq(T.uf("img.cs", [r], 32), cs if cs is not None else ics(v))))
    st.assume = st.assume + [x for x in g if x is not T.TRUE]

def img_contracts():
    I = r"^cuttlefish::Image::"
    def ctor(ex, fr, st, ins, dem, v): img_put(ex, fr, st, v[0], Z64)
    def copy(ex, fr, st, ins, dem, v): img_put(ex, fr, st, v[0], img_get(ex, fr, st, v[1])); return v[0]
    def move(ex, fr, st, ins, dem, v):
        x = img_get(ex, fr, st, v[1]); img_put(ex, fr, st, v[1], Z64); img_put(ex, fr, st, v[0], x); return v[0]
    def convert(ex, fr, st, ins, dem, v):
        x = img_get(ex, fr, st, v[1]); r = v_convert(x, v[2]); facts_like(st, r, x, fmt=v[2]); img_put(ex, fr, st, v[0], r)
    def ccs(ex, fr, st, ins, dem, v):
        x = img_get(ex, fr, st, v[0]); r = v_cs(x, v[1]); facts_like(st, r, x, cs=v[1]); st.assume = st.assume + [T.iff(T.ne(r, Z64), T.ne(x, Z64))]
        img_put(ex, fr, st, v[0], r); return T.ne(x, Z64)
    def resize(ex, fr, st, ins, dem, v):
        x = img_get(ex, fr, st, v[1]); r = v_resize(x, v[2], v[3], v[4]); facts_like(st, r, x, w=v[2], h=v[3]); img_put(ex, fr, st, v[0], r)
    return [(re.compile(I + r"Image\(\)$"), ctor), (re.compile(I + r"~Image\(\)$"), lambda *a: None),
            (re.compile(I + r"reset\(\)$"), ctor),
            (re.compile(I + r"(Image|operator=)\(cuttlefish::Image const&\)$"), copy), (re.compile(I + r"(Image|operator=)\(cuttlefish::Image&&\)$"), move),
            (re.compile(I + r"(isValid\(\)|operator bool\(\)) const$"), lambda ex, fr, st, ins, dem, v: T.ne(img_get(ex, fr, st, v[0]), Z64)),
            (re.compile(I + r"format\(\) const$"), lambda ex, fr, st, ins, dem, v: ifmt(img_get(ex, fr, st, v[0]))),
            (re.compile(I + r"width\(\) const$"), lambda ex, fr, st, ins, dem, v: iw(img_get(ex, fr, st, v[0]))),
            (re.compile(I + r"height\(\) const$"), lambda ex, fr, st, ins, dem, v: ih(img_get(ex, fr, st, v[0]))),
            (re.compile(I + r"colorSpace\(\) const$"), lambda ex, fr, st, ins, dem, v: ics(img_get(ex, fr, st, v[0]))),
            (re.compile(I + r"convert\(cuttlefish::Image::Format, bool\) const$"), convert),
            (re.compile(I + r"changeColorSpace\(cuttlefish::ColorSpace\)$"), ccs),
            (re.compile(I + r"resize\(unsigned int, unsigned int, cuttlefish::Image::ResizeFilter\) const$"), resize)]

# ---------------------------------------------------------------- geometry
def shr1(x, m): 
    """max(x >> m, 1) for m < 32"""
    s = T.lshr(x, m); return T.ite(T.eq(s, C32(0)), C32(1), s)
def umax(a, b): return T.ite(T.ult(a, b), b, a)
def umin(a, b): return T.ite(T.ult(b, a), b, a)

class World:
    """a texture in the state its initialisation leaves (any arguments), with arbitrary images"""
    def __init__(self, ex, image=True):
        self.ex = ex
        self.tex = X.ptr(X.Base("tex"))
        self.dim, self.w, self.h, self.d, self.req, self.cs = [T.var(n, 32) for n in ("dimension", "width", "height", "depth", "levels", "colorSpace")]
        self.is3d = T.eq(self.dim, C32(E("Texture::Dimension::Dim3D"))); self.cube = T.eq(self.dim, C32(E("Texture::Dimension::Cube")))
        self.valid = T.and_(T.ne(self.w, C32(0)), T.ne(self.h, C32(0)), T.not_(T.and_(self.is3d, T.eq(self.d, C32(0)))))
        self.args = [self.dim, self.w, self.h, self.d, self.req, self.cs]
        ex.contracts += base_contracts() + img_contracts() + [(re.compile(r"^cuttlefish::Texture::maxMipmapLevels\("), c_maxlevels)]
        ex.init_hooks["empty"] = lambda ex, b, o, s, ty: Z64 if ty == ("int", 64) else None
        self.max = maxlevels(self.dim, self.w, self.h, self.d)
        self.L = umin(umax(self.req, C32(1)), self.max)
        self.F = T.ite(self.cube, C32(6), C32(1))
    def W(self, m): return T.ite(T.ult(m, self.L), shr1(self.w, m), C32(0))
    def H(self, m): return T.ite(T.ult(m, self.L), shr1(self.h, m), C32(0))
    def D(self, m): return T.ite(T.ult(m, self.L), T.ite(self.is3d, shr1(self.d, m), umax(self.d, C32(1))), C32(0))
    def init(self, null=None):
        st = X.State()
        if null: self.ex.write(st, X.Base("tex"), Z64, 8, X.Ptr([(T.TRUE, None, Z64)]))
        return self.call(st, r"^cuttlefish::Texture::initialize\(", self.args)
    def call(self, st, rx, args, this=True):
        return call(self.ex, st, find(rx), ([self.tex] if this else []) + list(args))
    def made(self):
        """the state after a successful initialisation"""
        st = X.State(); st.pc = self.valid
        n = len(self.ex.obs)
        st, r = self.call(st, r"^cuttlefish::Texture::initialize\(", self.args)
        del self.ex.obs[n:]         # discharged by the unit of initialize itself
        return st
    def observers(self, st, what, L=None):
        """the geometry observers in state st report the geometry of this texture"""
        ex = self.ex; m = T.var("mip", 32); S = r"^cuttlefish::Texture::"; kL = self.L
        if L is not None: self.L = L
        def post(name, rx, args, want):
            s, r = self.call(st, S + rx, args)
            if r.w == 0: g = T.iff(r, want)
            else: g = T.eq(r, want) if want.w else T.iff(bool_of(r), want)
            ex.oblige(s, "%s: %s" % (what, name), g, "post", self.args + list(args))
        post("width(level)", r"width\(unsigned int\) const$", [m], self.W(m))
        post("height(level)", r"height\(unsigned int\) const$", [m], self.H(m))
        post("depth(level)", r"depth\(unsigned int\) const$", [m], self.D(m))
        post("mipLevelCount", r"mipLevelCount\(\) const$", [], self.L)
        post("faceCount", r"faceCount\(\) const$", [], self.F)
        post("dimension", r"dimension\(\) const$", [], self.dim)
        post("colorSpace", r"colorSpace\(\) const$", [], self.cs)
        post("isArray", r"isArray\(\) const$", [], T.and_(T.not_(self.is3d), T.ne(self.d, C32(0))))
        post("isValid", r"isValid\(\) const$", [], T.TRUE)
        self.L = kL
    def slot(self, st, m, d, f):
        """(state, pointer) of the real accessor for face f, level m, layer d (assumed in range)"""
        s = st.fork(); s.pc = T.and_(st.pc, T.ult(m, self.L), T.ult(d, self.D(m)), T.ult(f, self.F))
        return self.call(s, r"^cuttlefish::Texture::getImage\(cuttlefish::Texture::CubeFace, unsigned int, unsigned int\) const$", [f, m, d])

def maxlevels(dim, w, h, d): return T.uf("maxLevels", [dim, w, h, d], 32)
def levels_spec(r, dim, w, h, d):
    """r is the number of levels down to the last one where the largest dimension is 1"""
    big = umax(umax(w, h), T.ite(T.eq(dim, C32(E("Texture::Dimension::Dim3D"))), d, C32(0)))
    return T.ite(T.eq(big, C32(0)), T.eq(r, C32(0)), T.and_(T.ule(C32(1), r), T.ule(r, C32(32)), T.eq(T.lshr(big, T.sub(r, C32(1))), C32(1))))
def c_maxlevels(ex, fr, st, ins, dem, v):
    r = maxlevels(*v); st.assume = st.assume + [levels_spec(r, *v)]; return r

def unit_maxlevels(res):
    P = modules(); ex = X.Executor(P); v = [T.var(n, 32) for n in ("dimension", "width", "height", "depth")]
    st, r = call(ex, X.State(), find(r"^cuttlefish::Texture::maxMipmapLevels\("), v)
    ex.oblige(st, "maxMipmapLevels: down to the level where the largest dimension is 1", levels_spec(r, *v), "post", v)
    res.functions.append("Texture::maxMipmapLevels")
    run.discharge_into(res, ex.obs, v); run.collect(res, ex)

def unit_init(null):
    def go(res):
        ex = X.Executor(modules()); w = World(ex)
        st, r = w.init(null)
        ex.oblige(st, "initialize: accepted exactly when no required dimension is zero", T.iff(bool_of(r), w.valid), "post", w.args)
        s, r2 = w.call(st, r"^cuttlefish::Texture::isValid\(\) const$", [])
        ex.oblige(s, "initialize: the texture is valid exactly when accepted", T.iff(bool_of(r2), w.valid), "post", w.args)
        ok = st.fork(); ok.pc = T.and_(st.pc, w.valid)
        w.observers(ok, "after initialize")
        # every sub-image the geometry promises has a slot: the bounds obligations of the accessor
        m, d, f = T.var("mip", 32), T.var("layer", 32), T.var("face", 32)
        w.slot(ok, m, d, f)
        bad = st.fork(); bad.pc = T.and_(st.pc, T.not_(w.valid))
        zeros(w, bad, "after a rejected initialize")
        s, _ = w.call(ok, r"^cuttlefish::Texture::reset\(\)$", [])
        zeros(w, s, "after reset")
        res.functions += ["Texture::initialize", "Texture::reset", "Texture::width", "Texture::height", "Texture::depth", "Texture::isArray", "Texture::faceCount", "Texture::mipLevelCount", "Texture::dimension", "Texture::colorSpace", "Texture::isValid", "Texture::getImage(face)"]
        run.discharge_into(res, ex.obs, w.args); run.collect(res, ex)
    return go
def zeros(w, st, what):
    m, d, f = T.var("mip", 32), T.var("layer", 32), T.var("face", 32); ex = w.ex
    for n, rx, a in (("width", r"width\(unsigned int\) const$", [m]), ("height", r"height\(unsigned int\) const$", [m]), ("depth", r"depth\(unsigned int\) const$", [m]),
                     ("mipLevelCount", r"mipLevelCount\(\) const$", []), ("faceCount", r"faceCount\(\) const$", []), ("isArray", r"isArray\(\) const$", []), ("isValid", r"isValid\(\) const$", []),
                     ("converted", r"converted\(\) const$", []), ("dataSize", r"dataSize\(unsigned int, unsigned int\) const$", [m, d]), ("dataSize(face)", r"dataSize\(cuttlefish::Texture::CubeFace, unsigned int, unsigned int\) const$", [f, m, d])):
        s, r = w.call(st, r"^cuttlefish::Texture::" + rx, a)
        ex.oblige(s, "%s: %s is zero" % (what, n), T.not_(bool_of(r)) if r.w == 0 else T.eq(r, T.const(0, r.w)), "post", a)
    for n, rx, a in (("getImage", r"getImage\(unsigned int, unsigned int\) const$", [m, d]), ("getImage(face)", r"getImage\(cuttlefish::Texture::CubeFace, unsigned int, unsigned int\) const$", [f, m, d])):
        s, p = w.call(st, r"^cuttlefish::Texture::" + rx, a)
        ex.oblige(s, "%s: %s is the empty image" % (what, n), only_base(p, "empty"), "post", a)
def only_base(p, name): return T.and_(*[T.not_(c) for c, b, o in p.cases if b is None or b.name != name])

# ---------------------------------------------------------------- indexed access (C07)
class Fr:
    """frame stand-in for reading memory from the specification"""
    def __init__(self, mod): self.mod = mod
def tex_mod(): return find(r"^cuttlefish::Texture::initialize\(").module
def slot_value(w, st, m, d, f):
    s, p = w.slot(st, m, d, f)
    return w.ex.load(Fr(tex_mod()), s, ("int", 64), p)
def common_pre(w):
    m, d, f, v = T.var("mip", 32), T.var("layer", 32), T.var("face", 32), T.var("image", 64)
    return m, d, f, v
def unit_set(face, move):
    def go(res):
        ex = X.Executor(modules()); w = World(ex); st = w.made(); m, d, f, v = common_pre(w)
        m2, d2, f2 = T.var("mip2", 32), T.var("layer2", 32), T.var("face2", 32)
        arg = X.ptr(X.Base("arg")); fr = Fr(tex_mod())
        if face: st.pc = T.and_(st.pc, T.ult(f, C32(6)))      # precondition: an enumerator
        ex.store(fr, st, ("int", 64), v, arg)
        before = slot_value(w, st, m2, d2, f2)
        sig = r"^cuttlefish::Texture::setImage\(cuttlefish::Image%s, %sunsigned int, unsigned int\)$" % ("&&" if move else " const&", "cuttlefish::Texture::CubeFace, " if face else "")
        st1, r = w.call(st, sig, [arg] + ([f] if face else []) + [m, d])
        ins = w.args + [m, d, v] + ([f] if face else []); F = f if face else C32(0)
        rule = T.or_(w.cube, T.eq(f, C32(0))) if face else T.not_(w.cube)
        ok = T.and_(T.ult(m, w.L), T.ult(d, w.D(m)), T.eq(iw(v), w.W(m)), T.eq(ih(v), w.H(m)), T.ne(v, Z64), rule)
        # an image handle that is not null has the size it was made with (at least one pixel)
        st1.assume = st1.assume + [T.implies(T.ne(v, Z64), T.and_(T.ne(iw(v), C32(0)), T.ne(ih(v), C32(0))))]
        new = v_cs(v_convert(v, C32(E("Image::Format::RGBAF"))), w.cs)
        n = "setImage(%s%s)" % ("move" if move else "copy", ", face" if face else "")
        ex.oblige(st1, n + ": succeeds exactly for an existing place and an image of its size", T.iff(bool_of(r), T.and_(ok, T.ne(new, Z64))), "post", ins)
        after = slot_value(w, st1, m2, d2, f2)
        same = T.and_(ok, T.eq(m, m2), T.eq(d, d2), T.eq(F, f2))
        q = st1.fork(); q.pc = T.and_(q.pc, T.ult(m2, w.L), T.ult(d2, w.D(m2)), T.ult(f2, w.F))
        ex.oblige(q, n + ": the place holds the image as 32-bit float colours in the texture's colour space", T.implies(same, T.eq(after, new)), "post", ins + [m2, d2, f2])
        ex.oblige(q, n + ": every other place is unchanged", T.implies(T.not_(same), T.eq(after, before)), "post", ins + [m2, d2, f2])
        a2 = ex.load(fr, st1, ("int", 64), arg)
        ex.oblige(st1, n + ": the given image is unchanged" + (" when rejected" if move else ""), T.implies(T.not_(ok) if move else T.TRUE, T.eq(a2, v)), "frame", ins)
        w.observers(st1, "after " + n)
        # reading
        res.functions += ["Texture::" + n, "Texture::getImage"]
        run.discharge_into(res, ex.obs, ins); run.collect(res, ex)
    return go
def unit_get(res):
    ex = X.Executor(modules()); w = World(ex); st = w.made(); m, d, f, v = common_pre(w)
    S = r"^cuttlefish::Texture::getImage\("; fr = Fr(tex_mod())
    s, p = w.call(st, S + r"unsigned int, unsigned int\) const$", [m, d])
    inr = T.and_(T.ult(m, w.L), T.ult(d, w.D(m)))
    empty = T.or_(*[c for c, b, o in p.cases if b is not None and b.name == "empty"])
    ex.oblige(s, "getImage: the empty image exactly outside the texture (or for a cube map)", T.iff(empty, T.not_(T.and_(inr, T.not_(w.cube)))), "post", w.args + [m, d])
    s.pc = T.and_(s.pc, inr, T.not_(w.cube))
    ex.oblige(s, "getImage: the image of face 0", T.eq(ex.load(fr, s, ("int", 64), p), slot_value(w, s, m, d, C32(0))), "post", w.args + [m, d])
    st.pc = T.and_(st.pc, T.ult(f, C32(6)))
    s, p = w.call(st, S + r"cuttlefish::Texture::CubeFace, unsigned int, unsigned int\) const$", [f, m, d])
    empty = T.or_(*[c for c, b, o in p.cases if b is not None and b.name == "empty"])
    ex.oblige(s, "getImage(face): the empty image exactly outside the texture", T.iff(empty, T.not_(T.and_(inr, T.ult(f, w.F)))), "post", w.args + [f, m, d])
    res.functions += ["Texture::getImage"]
    run.discharge_into(res, ex.obs, w.args); run.collect(res, ex)

# ---------------------------------------------------------------- conversion and data access
def conv_contract(w):
    """Converter::convert(texture, images, textures, ...): on success textures has the shape of images and every slot holds the
    data of its own image; on failure textures is empty"""
    ex = w.ex
    def go(ex, fr, st, ins, dem, v):
        ok = T.var("converterOk", 0); s0 = st.fork()
        imgs = v[1]; (b0, o0), = [x[1:] for x in live(ex, st, imgs).cases]
        n0 = vec_size(ex, s0, X.ptr(b0, o0), 24)
        def at():
            s = s0.fork(); s.pc = T.and_(s0.pc, ex.rd_st.pc); s.assume = s0.assume + [a for a in ex.rd_st.assume if a not in s0.assume]; return s
        def sub(p, i):
            bg, _ = vec_bounds(ex, at(), p); (b, o), = [x[1:] for x in bg.cases]
            return X.ptr(b, T.add(o, T.mulc(i, 24)))
        from vc import loops
        def hook(level):
            def h(ex, b, off, size, ty):
                q = loops.divc(off, 24)
                if q is None: raise X.Unsupported("odd access to the list of data")
                i, r = q
                if r not in (0, 8, 16): raise X.Unsupported("odd access to the list of data")
                if level == 0: nb = X.Base("T1", (i,)); n = lambda: T.mulc(vec_size(ex, at(), sub(X.ptr(b0, o0), i), 24), 24)
                elif level == 1: nb = X.Base("T2", b.idx + (i,)); n = lambda: T.mulc(vec_size(ex, at(), sub(sub(X.ptr(b0, o0), b.idx[0]), i), 8), 24)
                else: nb = X.Base("TD", b.idx + (i,)); n = lambda: T.uf("dataBytes", list(nb.idx), 64)
                return X.ptr(nb, Z64 if r == 0 else n())
            return h
        for i in range(3): ex.init_hooks["T%d" % i] = hook(i)
        p = v[2]
        end = T.ite(ok, T.mulc(n0, 24), Z64)
        for c, b, o in live(ex, st, p).cases:
            ex.write(st, b, o, 8, X.ptr(X.Base("T0")), fr.mod, c)
            ex.write(st, b, T.add(o, C64(8)), 8, X.ptr(X.Base("T0"), end), fr.mod, c)
        w.conv_args = v
        return ok
    return go

def slot_apps(w, st, terms):
    """(m, d, f) of every image slot that is mentioned in the terms"""
    from vc import loops
    s, p = w.slot(st, T.var("mip", 32), T.var("layer", 32), T.var("face", 32))
    names = {b.name for c, b, o in p.cases}
    out = []
    for t in loops.apps(terms, lambda t: t.op == "uf" and str(t.x).split(":")[1:2] and str(t.x).split(":")[1] in names and len(t.args) == 3):
        q = [loops.divc(a, n) for a, n in zip(t.args, (24, 24, 8))]
        if all(x is not None and x[1] == 0 for x in q): out.append((t, [loops.fit(x[0], 32) for x in q]))
    return out
def in_range(w, m, d, f): return T.and_(T.ult(m, w.L), T.ult(d, w.D(m)), T.ult(f, w.F))
def unit_complete(res):
    """imagesComplete: true exactly when every place holds an image"""
    from vc import loops
    ex = X.Executor(modules()); w = World(ex); st = w.made()
    ex.foralls.clear(); n0 = len(ex.obs)
    s, r = w.call(st, r"^cuttlefish::Texture::imagesComplete\(\) const$", [])
    r = bool_of(r)
    m, d, f = T.var("mip", 32), T.var("layer", 32), T.var("face", 32)
    v = slot_value(w, st, m, d, f)
    q = s.fork(); q.pc = T.and_(s.pc, in_range(w, m, d, f)); q.assume = q.assume + loops.instances(ex, [[m], [d], [f]])
    ex.oblige(q, "imagesComplete: true only if every place holds an image", T.implies(r, T.ne(v, Z64)), "post", w.args + [m, d, f])
    # conversely: when every place the execution looked at holds an image the answer is true
    q = s.fork(); hyp = []
    for t, (a, b, c) in slot_apps(w, st, [r, s.pc] + s.assume):
        hyp.append(T.implies(in_range(w, a, b, c), T.ne(slot_value(w, st, a, b, c), Z64)))
    q.assume = q.assume + hyp
    ex.oblige(q, "imagesComplete: true if every place holds an image", r, "post", w.args)
    res.functions.append("Texture::imagesComplete")
    run.discharge_into(res, ex.obs, w.args); run.collect(res, ex)

def srgb_term(f, t): return T.and_(T.eq(t, C32(E("Texture::Type::UNorm"))), T.or_(*[T.eq(f, C32(fmt(n))) for n in ALLFMT if facts(n)["sRGB"]]))
def nul(p): return T.or_(*[T.and_(c, T.eq(o, Z64)) for c, b, o in p.cases if b is None])
class Converted:
    """a texture on which Texture::convert has been called (with any arguments, any images)"""
    def __init__(self, ex=None):
        self.ex = ex or X.Executor(modules()); self.w = w = World(self.ex); self.st0 = w.made(); self.ex.foralls.clear()
        self.complete = T.var("imagesComplete", 0)
        self.ex.contracts += [(re.compile(r"^cuttlefish::Texture::imagesComplete\(\) const$"), lambda *a: self.complete),
                              (re.compile(r"^cuttlefish::Texture::isFormatValid\(cuttlefish::Texture::Format, cuttlefish::Texture::Type\)$"), lambda ex, fr, st, ins, dem, v: valid_term(*v)),
                              (re.compile(r"^cuttlefish::Texture::hasNativeSRGB\("), lambda ex, fr, st, ins, dem, v: srgb_term(*v)),
                              (re.compile(r"^std::thread::hardware_concurrency"), lambda *a: T.var("cores", 32)),
                              (re.compile(r"^cuttlefish::Converter::convert\("), conv_contract(w))]
        self.args = [T.var(n, 32) for n in ("format", "type", "quality", "alphaType", "colorMask", "threads")]
        self.f, self.t = self.args[:2]
        self.st, self.r = w.call(self.st0, r"^cuttlefish::Texture::convert\(", self.args); self.r = bool_of(self.r)
        self.pre = T.and_(self.complete, valid_term(self.f, self.t), T.or_(T.ne(w.cs, C32(E("ColorSpace::sRGB"))), srgb_term(self.f, self.t)))
        self.ok = T.and_(self.pre, T.var("converterOk", 0))
def unit_convert(res):
    c = Converted(); ex, w, st = c.ex, c.w, c.st; S = r"^cuttlefish::Texture::"; ins = w.args + c.args
    m, d, f, _ = common_pre(w)
    ex.oblige(st, "convert: accepted exactly when the images are complete, the pair is valid and (for sRGB) has a native sRGB variant", T.iff(c.r, c.ok), "post", ins)
    def get(rx, a=()): return w.call(st, S + rx, list(a))
    s, r = get(r"converted\(\) const$"); ex.oblige(s, "converted() exactly after a successful conversion", T.iff(bool_of(r), c.ok), "post", ins)
    s, r = get(r"format\(\) const$"); ex.oblige(s, "format() is the one converted to, Unknown otherwise", T.eq(r, T.ite(c.ok, c.f, C32(E("Texture::Format::Unknown")))), "post", ins)
    s, r = get(r"type\(\) const$"); ex.oblige(s, "type() is the one converted to", T.implies(c.ok, T.eq(r, c.t)), "post", ins)
    s, r = get(r"alphaType\(\) const$"); ex.oblige(s, "alphaType() is the one given", T.implies(c.ok, T.eq(r, c.args[3])), "post", ins)
    s, r = get(r"colorMask\(\) const$"); ex.oblige(s, "colorMask() is the one given", T.implies(c.ok, T.eq(r, c.args[4])), "post", ins)
    for face in (False, True):
        a = [f, m, d] if face else [m, d]; sig = "cuttlefish::Texture::CubeFace, " if face else ""; F = f if face else C32(0)
        q = st.fork()
        if face: q.pc = T.and_(q.pc, T.ult(f, C32(6)))
        inr = T.and_(c.ok, T.ult(m, w.L), T.ult(d, w.D(m)), T.ult(f, w.F) if face else T.not_(w.cube))
        n = "(face)" if face else ""
        s, r = w.call(q, S + r"dataSize\(%sunsigned int, unsigned int\) const$" % sig, a)
        ex.oblige(s, "dataSize%s: the size of the addressed data, zero outside" % n, T.eq(r, T.ite(inr, T.uf("dataBytes", [T.zext(x, 64) for x in (m, d, F)], 64), Z64)), "post", ins + a)
        s, p = w.call(q, S + r"data\(%sunsigned int, unsigned int\) const$" % sig, a)
        ex.oblige(s, "data%s: null exactly outside" % n, T.iff(nul(p), T.not_(inr)), "post", ins + a)
        ex.oblige(s, "data%s: the addressed data" % n, T.and_(*[T.implies(cc, T.and_(T.eq(o, Z64), *[T.eq(x, T.zext(y, 64)) for x, y in zip(b.idx, (m, d, F))]) if b.name == "TD" else T.FALSE) for cc, b, o in p.cases if b is not None]), "post", ins + a)
    w.observers(st, "after convert")
    res.functions += ["Texture::convert", "Texture::converted", "Texture::data", "Texture::dataSize", "Texture::format", "Texture::type", "Texture::alphaType", "Texture::colorMask"]
    run.discharge_into(res, ex.obs, ins); run.collect(res, ex)
def unit_unset(res):
    """a texture that was never initialised: nothing can be stored"""
    ex = X.Executor(modules()); w = World(ex); st = X.State()
    ex.write(st, X.Base("tex"), Z64, 8, X.Ptr([(T.TRUE, None, Z64)]))
    arg = X.ptr(X.Base("arg")); m, d, f, v = common_pre(w); ex.store(Fr(tex_mod()), st, ("int", 64), v, arg)
    for sig, a in (("cuttlefish::Image const&, ", []), ("cuttlefish::Image&&, ", []), ("cuttlefish::Image const&, cuttlefish::Texture::CubeFace, ", [f]), ("cuttlefish::Image&&, cuttlefish::Texture::CubeFace, ", [f])):
        s, r = w.call(st, r"^cuttlefish::Texture::setImage\(%sunsigned int, unsigned int\)$" % sig, [arg] + a + [m, d])
        ex.oblige(s, "setImage on an invalid texture fails", T.not_(bool_of(r)), "post", [m, d, f, v])
        ex.oblige(s, "setImage on an invalid texture keeps the image", T.eq(ex.load(Fr(tex_mod()), s, ("int", 64), arg), v), "frame", [m, d, f, v])
    s, r = w.call(st, r"^cuttlefish::Texture::imagesComplete\(\) const$", []); ex.oblige(s, "an invalid texture is not complete", T.not_(bool_of(r)), "post")
    zeros(w, st, "on an invalid texture")
    run.discharge_into(res, ex.obs, w.args); run.collect(res, ex)

def native_tables(ctx, failed):
    """replay for the tables: the definitions, written to a file for the native harness"""
    import os
    vals = [0, 1, 2, 63, 64, 65, 100, 255, 256, 1 << 16, 1 << 31, (1 << 32) - 1]
    vals += [v for f in failed for k, v in (f.get("model") or {}).items() if k in ("format", "type") and isinstance(v, int)]
    with open(os.path.join(build.scratch(), "gen_tables.inc"), "w") as h:
        for n in ALLFMT:
            f = facts(n)
            h.write('{%du, "%s", %d, %d, %d, %d, %d, %d, %d},\n' % (fmt(n), n, f["blockWidth"], f["blockHeight"], f["blockSize"], f["minWidth"], f["minHeight"], f["hasAlpha"], f["sRGB"]))
    return build.run_native(build.native("tex.cpp", extra=["-DTABLES", "-I", build.scratch()], objs=build.native_objs()), ["formats", run.SEED] + vals)
def native_geometry(ctx, failed):
    """random shapes and the verifier's counterexamples"""
    ex = []
    for f in failed:
        m = f.get("model") or {}
        if "width" in m: ex += [m.get("dimension", 1), m["width"], m.get("height", 1), m.get("depth", 0), m.get("levels", 1)]
    return build.run_native(build.native("tex.cpp"), ["geometry", run.SEED] + ex[:50])
