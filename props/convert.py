"""Contracts of Converter::convert: shape of the result, the job list, and the worker threads (C02, C03)."""
import re
from vc import term as T, build, execu as X, run, loops
from . import tex, conv
C64, C32, Z64 = X.C64, tex.C32, C64 = (X.C64, tex.C32, X.C64)
Z64 = X.C64(0)

NOIN = [r"^cuttlefish::Converter::data\(\)$", r"::createConverter\(", r"^std::vector<(std::thread|std::unique_ptr<cuttlefish::[^<]*ThreadData).*>::vector\(\)", r"^std::vector<.*>::(resize|operator\[\]|clear|~vector|operator=|push_back|reserve)\(", r"emplace_back<", r"^std::thread::", r"^std::unique_ptr<.*::~unique_ptr",
        r"::(\$_\d+|\{lambda\(\)#\d+\})::operator\(\)\(\) const$", r"^cuttlefish::.*::(jobsX|jobsY|process|createThreadData)\("]
_m = {}
def modules():
    if "P" not in _m:
        m = build.ir("lib/src/Converter.cpp", NOIN, tag=".convert")
        _m["P"] = X.Program([m]); _m["mod"] = m
    return _m["P"]
def find(rx): return tex.find(rx, modules())

# ---------------------------------------------------------------- the abstract converter object
def virt(ex):
    """the methods in the slots of a converter's vtable: those of any complete converter in the module (all have the slots of the class Converter)"""
    P = modules(); m = _m["mod"]
    def fns(t):
        if isinstance(t, tuple):
            if len(t) == 2 and t[0] == "g" and isinstance(t[1], str): yield t[1]
            elif t == ("null",): yield None
            else:
                for x in t: yield from fns(x)
        elif isinstance(t, list):
            for x in t: yield from fns(x)
    for name in sorted(m.globals):
        if not name.startswith("@_ZTVN10cuttlefish") or m.globals[name][2] is None: continue
        sl = list(fns(m.globals[name][2])); d = [P.dem.get((x or "").lstrip("@"), "") for x in sl]
        if not any(re.search(r"::process\(", x) for x in d): continue
        return {8*(i - 2): X.ptr(X.Base("fn:" + x.lstrip("@"))) for i, x in enumerate(sl) if i >= 2}
    raise X.Unsupported("no converter class in the module")

class W:
    """the texture's images: levels, layers and faces of any number (32 bits each)"""
    def __init__(self, have=True):
        self.ex = ex = X.Executor(modules()); self.have = have
        self.threads = T.var("threads", 32)
        self.n0 = T.var("levels", 32)
        self.n1 = lambda i: T.uf("layers", [i], 32)
        self.n2 = lambda i, j: T.uf("faces", [i, j], 32)
        self.jobs = lambda b: T.uf("jobsX", list(b.idx), 32)
        def vec(level):
            def h(ex, b, off, size, ty):
                q = loops.divc(off, 24)
                if q is None or q[1] not in (0, 8, 16): raise X.Unsupported("odd access to the list of images")
                i, r = q; i = loops.fit(i, 32)
                if level == 0: nb = X.Base("IM1"); n = T.mulc(T.zext(self.n0, 64), 24)
                elif level == 1: nb = X.Base("IM2", b.idx + (i,)); n = T.mulc(T.zext(self.n1(i), 64), 24)
                else: nb = X.Base("IMG", b.idx + (i,)); n = T.mulc(T.zext(self.n2(b.idx[0], i), 64), 8)
                return X.ptr(nb, Z64 if r == 0 else n)
            return h
        for l in range(3): ex.init_hooks["IM%d" % l] = vec(l)
        ex.init_hooks["CV"] = lambda ex, b, off, size, ty: X.ptr(X.Base("CVvt")) if T.isc(off) and off.x == 0 else None
        vt = virt(ex)
        ex.init_hooks["CVvt"] = lambda ex, b, off, size, ty: vt.get(T.sval(off)) if T.isc(off) else None
        ex.init_hooks["ELEM"] = lambda ex, b, off, size, ty: X.ptr(X.Base("EL", b.idx + (loops.divc(off, 8)[0],)))
        def tag(name): return T.const(sum(ord(c) << 8*i for i, c in enumerate(name)) & (1 << 64) - 1, 64)
        self.tags = {}
        def vtag(b):
            if b.idx: raise X.Unsupported("list of threads in an array")
            return self.tags.setdefault(b.name, T.const(len(self.tags) + 1, 64))
        def create(ex, fr, st, ins, dem, v):
            cv = X.Base("CV", tuple(X.ACTIVE))
            st.trace.append(X.Event("create", (v[1], v[2], X.ptr(cv))))
            ex.write(st, *v[0].single(), 8, X.ptr(cv) if have else X.NULL, fr.mod)
        def jobsx(ex, fr, st, ins, dem, v):
            b, o = v[0].single(); r = self.jobs(b); st.assume = st.assume + [T.ne(r, C32(0)), T.ule(r, C32(1 << 28))]; return r
        def process(ex, fr, st, ins, dem, v): st.trace.append(X.Event("process", (v[0], v[1], v[2], v[3])))
        def mkdata(ex, fr, st, ins, dem, v):
            p = X.ptr(X.Base("data!%d" % id(ins), tuple(X.ACTIVE))); st.trace.append(X.Event("mkdata", (v[1], p))); ex.write(st, *v[0].single(), 8, p, fr.mod)
        def reserve(ex, fr, st, ins, dem, v):
            (b, o), = [x[1:] for x in tex.live(ex, st, v[0]).cases]; t = vtag(b)
            for d in (0, 8): ex.write(st, b, T.add(o, C64(d)), 8, X.ptr(X.Base("ELEM", (t,))), fr.mod)
        def push(kind):
            def h(ex, fr, st, ins, dem, v):
                (b, o), = [x[1:] for x in tex.live(ex, st, v[0]).cases]; t = vtag(b)
                e = tex.live(ex, st, ex.read(st, b, T.add(o, C64(8)), 8, ("ptr",)))
                (eb, eo), = [x[1:] for x in e.cases]
                if eb is None:
                    eb, eo = X.Base("ELEM", (t,)), Z64; ex.write(st, b, o, 8, X.ptr(eb), fr.mod)
                val = ()
                if kind == "push": val = (ex.read(st, *v[1].single(), 8, ("ptr",)),)
                else: self.spawns.append(closure(ex, st, v[1])); val = (C64(len(self.spawns) - 1),)
                st.trace.append(X.Event(kind, (X.ptr(b, o), X.ptr(eb, eo)) + val))
                ex.write(st, b, T.add(o, C64(8)), 8, X.ptr(eb, T.add(eo, C64(8))), fr.mod)
                return X.ptr(eb, eo)
            return h
        def shared(ex, st, x):
            """what a thread finds behind a captured pointer: (kind, pointer/value, contents of the job list at `ticket`)"""
            q = tex.live(ex, st, x)
            if len(q.cases) != 1: return ("other", None)
            b, o = q.single()
            if b is None: return ("other", None)
            if b.name in ("CV", "EL"): return (b.name, q)
            if b.name.startswith("data!"): return ("EL", q)
            if not b.name.startswith(("alloca", "a:")): return ("other", q)
            def rd(off, n, ty):
                try: return ex.read(st, b, T.add(o, C64(off)), n, ty)
                except X.Unsupported: return None
            v = rd(0, 8, ("ptr",))
            if isinstance(v, X.Ptr):
                v = tex.live(ex, st, v)
                if len(v.cases) == 1 and v.cases[0][1] is not None:
                    vb, vo = v.single()
                    if vb.name == "CV": return ("CVVAR", v)
                    if vb.name == "JOBS":
                        e = rd(8, 8, ("ptr",)); s2 = st.fork(); s2.pc = T.and_(st.pc, T.ult(self.ticket, self.jobs(vb)))
                        at = lambda d: ex.read(s2, vb, T.add(T.add(vo, C64(d)), T.mulc(T.zext(self.ticket, 64), 8)), 4, ("int", 32))
                        return ("JOBS", v, e, at(0), at(4))
                    return ("other", v)
            v = rd(0, 4, ("int", 32))
            return ("CTR", v, X.ptr(b, o))
        self.ticket = T.var("ticket", 32); self.captured = []
        def closure(ex, st, p):
            b, o = p.single(); r = st.mem.get(b.name)
            if r is None or r.log is not None: raise X.Unsupported("closure of the thread")
            out = []
            for off in sorted(r.cells):
                sz, x = r.cells[off]
                if sz != 8 or not isinstance(x, X.Ptr): raise X.Unsupported("captured value of the thread")
                if not any(c[0] == off and loops.same_val(c[1], x) for c in self.captured): self.captured.append((off, x))
                out.append((off, shared(ex, st, x)))
            return out
        self.spawns = []; self.joins = []
        def join(ex, fr, st, ins, dem, v):
            self.joins.append([(off, shared(ex, st, x)) for off, x in self.captured])
            st.trace.append(X.Event("join", (v[0], C64(len(self.joins) - 1))))
        def publish(ex, fr, st, ins, dem, v): st.trace.append(X.Event("publish", (v[0], v[1]))); return v[0]
        def ireset(ex, fr, st, ins, dem, v): st.trace.append(X.Event("reset", (v[0],)))
        def jresize(ex, fr, st, ins, dem, v):
            nb = X.Base("JOBS", tuple(X.ACTIVE)); ex.sizes["JOBS"] = lambda b: None
            for c, b, o in tex.live(ex, st, v[0]).cases:
                end = T.mulc(v[1], 8)
                ex.write(st, b, o, 8, X.ptr(nb), fr.mod, c); ex.write(st, b, T.add(o, C64(8)), 8, X.ptr(nb, end), fr.mod, c); ex.write(st, b, T.add(o, C64(16)), 8, X.ptr(nb, end), fr.mod, c)
        def jclear(ex, fr, st, ins, dem, v):
            nb = X.Base("JOBS", tuple(X.ACTIVE)); ex.sizes["JOBS"] = lambda b: None
            for c, b, o in tex.live(ex, st, v[0]).cases:
                for d in (0, 8): ex.write(st, b, T.add(o, C64(d)), 8, X.ptr(nb), fr.mod, c)
        def jpush(ex, fr, st, ins, dem, v):
            b, o = tex.live(ex, st, v[0]).single()
            e = ex.read(st, b, T.add(o, C64(8)), 8, ("ptr",))
            if not isinstance(e, X.Ptr) or len(e.cases) != 1 or e.single()[0] is None or e.single()[0].name != "JOBS": raise X.Unsupported("list of jobs that is not cleared for every image")
            eb, eo = e.single()
            if len(v) == 2: xs = [ex.read(st, v[1].single()[0], T.add(v[1].single()[1], C64(d)), 4, ("int", 32)) for d in (0, 4)]
            else: xs = [ex.read(st, *p.single(), 4, ("int", 32)) for p in v[1:3]]
            for d, x in zip((0, 4), xs): ex.write(st, eb, T.add(eo, C64(d)), 4, x, fr.mod)
            ex.write(st, b, T.add(o, C64(8)), 8, X.ptr(eb, T.add(eo, C64(8))), fr.mod)
            return X.ptr(eb, eo)
        V = r"^std::vector<"; PAIR = r"std::pair<unsigned int, unsigned int>"
        ex.contracts = [(re.compile(V + PAIR + r".*>::clear\("), jclear), (re.compile(V + PAIR + r".*>::reserve\("), lambda *a: None), (re.compile(V + PAIR + r".*>::push_back\(|.*" + PAIR + r".*emplace_back<(unsigned|std::pair)"), jpush),
            (re.compile(r"::createConverter\("), create), (re.compile(r"^cuttlefish::.*::jobsX\(\) const$"), jobsx), (re.compile(r"^cuttlefish::.*::jobsY\(\) const$"), lambda *a: C32(1)),
            (re.compile(r"^cuttlefish::.*::process\("), process), (re.compile(r"^cuttlefish::.*::createThreadData\("), mkdata),
            (re.compile(V + r".*>::reserve\("), reserve), (re.compile(V + r".*>::push_back\("), push("push")), (re.compile(V + r"std::thread.*emplace_back<|emplace_back<cuttlefish::Converter::convert"), push("spawn")),
            (re.compile(V + r"(std::thread|std::unique_ptr).*>::vector\(\)$"), reserve), (re.compile(V + r".*>::~vector\(|^std::unique_ptr<.*::~unique_ptr"), lambda *a: None), (re.compile(r"^std::thread::join\("), join),
            (re.compile(V + r"unsigned char, std::allocator<unsigned char> >::operator=\("), publish), (re.compile(r"^cuttlefish::Image::reset\("), ireset),
            (re.compile(V + PAIR + r".*>::resize\("), jresize)] + tex.base_contracts()
        for k, (rx, h) in enumerate(ex.contracts):
            if "operator\\[\\]" in rx.pattern: ex.contracts[k] = (rx, index)
        self.ins = [self.n0, self.threads]
    def data_offset(self):
        """where the class Converter keeps its data: from its member function"""
        if not hasattr(self, "_do"):
            f = find(r"^cuttlefish::Converter::data\(\)$"); ex = X.Executor(modules()); p = X.ptr(X.Base("CV"))
            st, r = tex.call(ex, X.State(), f, [p]); self._do = r.single()[1].x
        return self._do
    def call(self, pc):
        st = X.State(); st.pc = pc
        f = find(r"^cuttlefish::Converter::convert\(cuttlefish::Texture const&.*unsigned int\)$")
        self.ex.write(st, X.Base("out"), Z64, 8, X.NULL); self.ex.write(st, X.Base("out"), C64(8), 8, X.NULL); self.ex.write(st, X.Base("out"), C64(16), 8, X.NULL)
        return tex.call(self.ex, st, f, [X.ptr(X.Base("texture")), X.ptr(X.Base("IM0")), X.ptr(X.Base("out")), C32(2), self.threads])

def index(ex, fr, st, ins, dem, v):
    p = tex.live(ex, st, v[0])
    return tex.c_index(ex, fr, st, ins, dem, [p, v[1]])

def same(p, q):
    """two pointers are equal (goal)"""
    (b, o), (b2, o2) = p.single(), q.single()
    if b is None or b2 is None: return T.FALSE
    if b.name != b2.name or len(b.idx) != len(b2.idx): return T.FALSE
    return T.and_(T.eq(o, o2), *[T.eq(loops.fit(x, 64), loops.fit(y, 64)) for x, y in zip(b.idx, b2.idx)])
ASSUME = ["a converter has between 1 and 2^28 jobs in one row (its own contract, decided by the converter units)",
    "atomic increments are atomic and totally ordered, std::thread runs its callable once, join waits for its end (C++ standard library)",
    "std::vector (resize, reserve, push_back, operator[], move assignment) and std::unique_ptr by their contracts; no exceptions (allocation and thread creation succeed)",
    "the list of results is empty when convert is called; a second conversion of a texture (list of the same shape) is covered by the native runs only", "images of at most 2^28 texels; pixels are not NaN"]
class Shape(X.Unsupported): pass
def kinds(ev): return sorted({k for e in ev.body for k in kinds(e)}) if isinstance(ev, X.LoopEv) else [ev.name]

def spec(w, st, r, res):
    """the obligations over the trace of one call"""
    ex = w.ex; ins = w.ins
    def ob(s, name, g, kind="post", more=()): ex.oblige(s, name, g, kind, list(ins) + list(more))
    ob(st, "the conversion succeeds", r if r.w == 0 else T.ne(r, T.const(0, r.w)))
    tr = st.trace
    if len(tr) != 1 or not isinstance(tr[0], X.LoopEv): raise Shape("the levels are not one loop")
    L = [tr[0]]
    for n in ("array elements", "faces"):
        b = [e for e in L[-1].body]
        if len(b) != 1 or not isinstance(b[0], X.LoopEv): raise Shape("the %s of a level are not one loop" % n)
        L.append(b[0])
    slot = L[2].body
    cr = [e for e in slot if not isinstance(e, X.LoopEv) and e.name == "create"]
    if not cr: raise Shape("no converter is made in the innermost loop")
    ks = [l.k for l in L]
    s = st.fork(); s.pc = T.and_(st.pc, *[T.ult(l.k, l.n) for l in L])
    # the image that the converter reads
    (ib, io) = cr[0].args[1].single()
    if ib is None or ib.name != "IMG": ob(s, "the converter reads an image of the texture", T.FALSE); return None
    q = loops.divc(io, 8)
    if q is None or q[1]: raise Shape("address of the image")
    I = [loops.fit(ib.idx[0], 32), loops.fit(ib.idx[1], 32), loops.fit(q[0], 32)]
    N = [w.n0, w.n1(I[0]), w.n2(I[0], I[1])]
    for d, what in enumerate(("level", "array element or slice", "face")):
        ob(st if d == 0 else s, "every %s is visited: as many iterations as there are" % what, T.eq(loops.fit(L[d].n, 64), T.zext(N[d], 64)), more=ks[:d])
        ob(s, "the %s loop is always entered" % what, L[d].guard, more=ks[:d])
        ob(s, "the %s visited exists" % what, T.ult(I[d], N[d]), more=ks)
        k2 = T.var(str(ks[d].x) + "'", ks[d].w); s2 = s.fork(); s2.pc = T.and_(s.pc, T.ult(k2, L[d].n), T.ne(ks[d], k2))
        ob(s2, "no %s is visited twice" % what, T.ne(I[d], T.subst(I[d], {ks[d]: k2})), more=ks + [k2])
    CV = cr[0].args[2]; cvb = CV.single()[0]
    J = w.jobs(cvb); s.assume = s.assume + [T.ne(J, C32(0)), T.ule(J, C32(1 << 28))]
    ob(s, "one converter per image", T.const(int(len(cr) == 1), 0)); ob(s, "every image gets a converter", cr[0].guard, more=ks)
    ob(s, "the converter gets the texture", same(cr[0].args[0], X.ptr(X.Base("texture"))))
    # phases
    spawn = [(n, e) for n, e in enumerate(slot) if "spawn" in kinds(e)]; join = [(n, e) for n, e in enumerate(slot) if "join" in kinds(e)]
    proc = [(n, e) for n, e in enumerate(slot) if "process" in kinds(e)]; pub = [(n, e) for n, e in enumerate(slot) if "publish" in kinds(e)]; rs = [(n, e) for n, e in enumerate(slot) if "reset" in kinds(e)]
    for e in slot:
        if isinstance(e, X.LoopEv) and len(e.body) > 2 or isinstance(e, X.LoopEv) and any(isinstance(x, X.LoopEv) for x in e.body): raise Shape("loop within the conversion of one image: %s" % kinds(e))
    if len(spawn) > 1 or len(join) > 1 or len(proc) > 1 or any(not isinstance(e, X.LoopEv) for _, e in spawn + join + proc): raise Shape("the phases of the conversion of one image")
    if any(isinstance(e, X.LoopEv) for _, e in pub + rs): raise Shape("results published in a loop")
    gp = proc[0][1].guard if proc else T.FALSE; gs = spawn[0][1].guard if spawn else T.FALSE
    ob(s, "the jobs are processed: here or by worker threads", T.or_(gp, gs), more=ks); ob(s, "and not by both", T.not_(T.and_(gp, gs)), more=ks)
    last = -1
    if proc:
        n, e = proc[0]; last = max(last, n); pv = [x for x in e.body if x.name == "process"]
        sp = s.fork(); sp.pc = T.and_(s.pc, gp, T.ult(e.k, e.n))
        ob(sp, "one job per iteration", T.const(int(len(pv) == 1 and len(e.body) == 1), 0)); ob(sp, "no job is skipped", pv[0].guard, more=ks + [e.k])
        s1 = s.fork(); s1.pc = T.and_(s.pc, gp); ob(s1, "as many jobs are processed as the converter has", T.eq(loops.fit(e.n, 64), T.zext(J, 64)), more=ks)
        a = pv[0].args
        if not T.isc(a[1]): pass
        ob(sp, "the jobs are those of this image's converter", same(a[0], CV), more=ks); ob(sp, "job exists", T.ult(a[1], J), more=ks + [e.k]); ob(sp, "jobs have one row", T.eq(a[2], C32(0)), more=ks + [e.k])
        k2 = T.var(str(e.k.x) + "'", e.k.w); s2 = sp.fork(); s2.pc = T.and_(sp.pc, T.ult(k2, e.n), T.ne(e.k, k2))
        ob(s2, "no job is processed twice", T.ne(a[1], T.subst(a[1], {e.k: k2})), more=ks + [e.k, k2])
    closure = None
    if spawn:
        (n, e) = spawn[0]; sv = [x for x in e.body if x.name == "spawn"]
        if len(sv) != 1 or any(x.name not in ("spawn", "mkdata", "push") for x in e.body): raise Shape("the loop that starts the workers")
        sp = s.fork(); sp.pc = T.and_(s.pc, gs); nw = loops.fit(e.n, 64)
        ob(sp, "at least one worker is started", T.ne(nw, Z64), more=ks); ob(sp, "no more workers than jobs", T.ule(nw, T.zext(J, 64)), more=ks)
        si = sp.fork(); si.pc = T.and_(sp.pc, T.ult(e.k, e.n)); ob(si, "every worker is started", sv[0].guard, more=ks + [e.k])
        ths, slotp, num = sv[0].args; closure = w.spawns[num.x]
        ob(sp, "the workers are joined", T.const(int(len(join) == 1 and join[0][0] > n), 0))
        if join:
            jn, je = join[0]; jv = [x for x in je.body if x.name == "join"]; last = max(last, jn)
            ob(sp, "joining is not skipped", je.guard, more=ks); ob(sp, "as many joins as workers", T.eq(loops.fit(je.n, 64), nw), more=ks)
            sj = sp.fork(); sj.pc = T.and_(sp.pc, T.ult(je.k, je.n)); ob(sj, "one join per iteration", T.const(int(len(jv) == 1 and len(je.body) == 1), 0)); ob(sj, "no join is skipped", jv[0].guard, more=ks + [je.k])
            k1 = T.subst(loops.fit(slotp.single()[1], 64), {e.k: loops.fit(je.k, e.k.w)})
            jp = jv[0].args[0]
            ob(sj, "the thread joined is the one that was started", same(jp, X.ptr(slotp.single()[0], k1)), more=ks + [je.k])
            # between start and join nothing that the workers share is changed by this thread
            shared2 = dict(w.joins[jv[0].args[1].x])
            for off, c in closure:
                d = shared2.get(off)
                if d is None or d[0] != c[0]: ob(sj, "what the workers share stays until they are joined (capture %d)" % off, T.FALSE); continue
                for x, y in zip(c[1:], d[1:]):
                    if isinstance(x, T.T) and isinstance(y, T.T): ob(sj, "what the workers share stays until they are joined (%s)" % c[0], T.or_(T.not_(T.ult(w.ticket, J)), T.eq(x, y)), more=ks)
                    elif isinstance(x, X.Ptr) and isinstance(y, X.Ptr) and c[0] != "EL": ob(sj, "what the workers share stays until they are joined (%s)" % c[0], same(x, y), more=ks)
        seen = set()
        for off, c in closure:
            seen.add(c[0])
            if c[0] == "CTR": ob(si, "the job counter starts at zero", T.eq(c[1], C32(0)) if isinstance(c[1], T.T) else T.FALSE, more=ks + [e.k]); w.ctr = c[2]
            elif c[0] in ("CV", "CVVAR"): ob(si, "the workers use this image's converter", same(c[1], CV), more=ks + [e.k])
            elif c[0] == "JOBS":
                t = w.ticket; sk = si.fork(); sk.pc = T.and_(si.pc, T.ult(t, J)); x, y = c[3], c[4]
                ob(si, "the list of jobs is that of this image", same(c[1], X.ptr(X.Base("JOBS", tuple(ks)))), more=ks)
                ob(si, "the list of jobs is complete", same(c[2], X.ptr(c[1].single()[0], T.add(c[1].single()[1], T.mulc(T.zext(J, 64), 8)))), more=ks)
                ob(sk, "every entry is a job", T.ult(x, J), more=ks + [t]); ob(sk, "jobs have one row", T.eq(y, C32(0)), more=ks + [t])
                t2 = T.var("ticket'", 32); s2 = sk.fork(); s2.pc = T.and_(sk.pc, T.ult(t2, J), T.ne(t, t2)); m = {t: t2}
                ob(s2, "no job is in the list twice", T.ne(x, T.subst(x, m)), more=ks + [t, t2])
            elif c[0] == "EL":
                eb, eo = c[1].single()
                if eb.name == "EL":
                    k2 = T.var(str(e.k.x) + "'", e.k.w); s2 = si.fork(); s2.pc = T.and_(si.pc, T.ult(k2, e.n), T.ne(e.k, k2))
                    ob(s2, "every worker has its own thread data", T.ne(eb.idx[-1], T.subst(eb.idx[-1], {e.k: k2})), more=ks + [e.k, k2])
                    pu = [x for x in slot if isinstance(x, X.LoopEv) and "push" in kinds(x)]
                    if len(pu) == 1:
                        pe = [x for x in pu[0].body if x.name == "push"][0]
                        ob(si, "the thread data of this worker exists", T.and_(pu[0].guard, pe.guard, T.ult(eb.idx[-1], loops.fit(pu[0].n, 64))) if slot.index(pu[0]) < n or pu[0] is e else T.FALSE, more=ks + [e.k])
            else: raise Shape("a worker captures something else")
        if not {"CTR", "JOBS"} <= seen or not seen & {"CV", "CVVAR"}: raise Shape("what the workers capture: %s" % sorted(seen))
    # the result is taken when the work is done
    if len(pub) != 1: ob(s, "the result of every image is published once", T.const(int(len(pub) == 1), 0)); return closure
    n, e = pub[0]
    ob(s, "the result is published after all jobs are processed", T.const(int(n > last), 0)); ob(s, "every result is published", e.guard, more=ks)
    for n2, e2 in rs:
        ob(s, "the image is released after all jobs are processed", T.const(int(n2 > last), 0)); ob(s, "only this image is released", same(e2.args[0], X.ptr(ib, io)), more=ks)
    f = st.fork(); dst = outslot(w, f, I)
    ob(s, "the result goes to the slot of its own image", same(e.args[0], dst), more=ks)
    if e.args[1].single()[0].name != "CV": ob(s, "the result is the converter's data", T.FALSE)
    else: ob(s, "the result is this image's converter's data", T.and_(same(X.ptr(e.args[1].single()[0]), CV), T.eq(e.args[1].single()[1], C64(w.data_offset()))), more=ks)
    return closure

def outslot(w, st, I, sizes=None):
    ex = w.ex; p = X.ptr(X.Base("out"))
    for d in range(2):
        bg, _ = tex.vec_bounds(ex, st, p); b, o = bg.single(); p = X.ptr(b, T.add(o, T.mulc(T.zext(I[d], 64), 24)))
    bg, _ = tex.vec_bounds(ex, st, p); b, o = bg.single()
    return X.ptr(b, T.add(o, T.mulc(T.zext(I[2], 64), 24)))

def shapes(w, st):
    """the list of results has the shape of the list of images"""
    ex = w.ex; p = X.ptr(X.Base("out")); i = T.var("i", 32); j = T.var("j", 32)
    s = st.fork(); s.pc = T.and_(st.pc, T.ult(i, w.n0), T.ult(j, w.n1(i)))
    for d, (n, what) in enumerate(((w.n0, "levels"), (w.n1(i), "array elements"), (w.n2(i, j), "faces"))):
        ex.oblige(s if d else st, "the result has as many %s as the texture" % what, T.eq(tex.vec_size(ex, s, p, 24), T.zext(n, 64)), "post", w.ins + [i, j])
        if d < 2:
            bg, _ = tex.vec_bounds(ex, s, p); b, o = bg.single(); p = X.ptr(b, T.add(o, T.mulc(T.zext((i, j)[d], 64), 24)))

CASES = {"no thread limit given": lambda t: T.eq(t, C32(0)), "one thread": lambda t: T.eq(t, C32(1)), "several threads": lambda t: T.ult(C32(1), t)}
def unit_convert(case):
    def go(res):
        w = W()
        if case == "no thread limit given": w.threads = C32(0)
        if case == "one thread": w.threads = C32(1)
        st, r = w.call(T.and_(CASES[case](w.threads), T.ne(w.n0, C32(0))))
        try: spec(w, st, r, res)
        except Shape:
            run.discharge_into(res, w.ex.obs, w.ins); raise
        shapes(w, st)
        res.functions.append("Converter::convert")
        run.discharge_into(res, w.ex.obs, w.ins); run.collect(res, w.ex)
    return go

def unit_fail(res):
    """no converter: nothing is done"""
    w = W(have=False); st, r = w.call(T.TRUE); ex = w.ex
    st.assume = st.assume + [T.ne(w.n0, C32(0)), T.ne(w.n1(C32(0)), C32(0)), T.ne(w.n2(C32(0), C32(0)), C32(0))] + loops.instances(ex, [[Z64, C32(0)], [Z64, C32(0)], [Z64, C32(0)]])
    ex.oblige(st, "without a converter the conversion fails", T.not_(r if r.w == 0 else T.ne(r, T.const(0, r.w))), "post", w.ins)
    ex.oblige(st, "a failed conversion leaves no results", T.eq(tex.vec_size(ex, st, X.ptr(X.Base("out")), 24), Z64), "post", w.ins)
    def names(evs): return {n for e in evs for n in (names(e.body) if isinstance(e, X.LoopEv) else {e.name})}
    ex.oblige(st, "a failed conversion processes, publishes and releases nothing", T.const(int(not names(st.trace) & {"process", "publish", "reset", "spawn", "join"}), 0), "post")
    res.functions.append("Converter::convert (no converter)")
    run.discharge_into(res, ex.obs, w.ins); run.collect(res, ex)

def ex_worker(res, w, closure):
    """one worker thread, for every sequence of tickets it may draw: whatever the other workers do, it processes exactly the jobs
    of the tickets it drew (none else, none twice), and ends only with a ticket beyond the last job"""
    w2 = W(); ex = w2.ex; P = modules()
    N = T.var("jobs", 32); hy = [T.ne(N, C32(0)), T.ule(N, C32(1 << 28))]
    jx = lambda k: T.uf("jobx", [k], 32); jy = lambda k: T.uf("joby", [k], 32)
    by = {}
    for off, c in closure: by[off] = c[0]
    reg = {"CTR": "CTRV", "JOBS": "JOBSV", "CVVAR": "CVP", "CV": "CVO", "EL": "TD"}
    ex.init_hooks["CLO"] = lambda ex, b, off, size, ty: X.ptr(X.Base(reg[by[T.sval(off)]])) if T.isc(off) and T.sval(off) in by else None
    bad = []
    def plain(ex, b, off, size, ty): bad.append(1); return T.uf("racy", [off], 8*size)
    ex.init_hooks["CTRV"] = plain
    ex.init_hooks["JOBSV"] = lambda ex, b, off, size, ty: X.ptr(X.Base("JL"), Z64 if T.sval(off) == 0 else T.mulc(T.zext(N, 64), 8)) if T.isc(off) and T.sval(off) in (0, 8, 16) else None
    def jl(ex, b, off, size, ty):
        q = loops.divc(off, 8)
        if q is None or size != 4: raise X.Unsupported("odd access to the list of jobs")
        return (jx if q[1] == 0 else jy)(loops.fit(q[0], 32))
    ex.init_hooks["JL"] = jl; ex.sizes["JL"] = lambda b: T.mulc(T.zext(N, 64), 8)
    ex.init_hooks["CVP"] = lambda ex, b, off, size, ty: X.ptr(X.Base("CVO")) if T.isc(off) and off.x == 0 else None
    ex.init_hooks["CVO"] = ex.init_hooks["CV"]
    width = []
    def rmw(ex, st, op, p, v):
        q = tex.live(ex, st, p)
        if len(q.cases) != 1 or q.cases[0][1] is None or q.single()[0].name != "CTRV" or not T.isc(q.single()[1]) or q.single()[1].x: raise X.Unsupported("atomic operation on something else")
        if op != "add" or not (T.isc(v) and v.x == 1): raise X.Unsupported("atomic operation other than adding one")
        t = T.uf(("ticketof%d" if X.ACTIVE else "ticketout%d") % sum(1 for e in st.trace if not isinstance(e, X.LoopEv) and e.name == "ticket"), [loops.fit(a, 64) for a in X.ACTIVE] or [C64(0)], v.w); width.append(v.w)
        t = T.zext(t, 32) if v.w < 32 else t
        st.trace.append(X.Event("ticket", (t,))); return T.extract(t, v.w - 1, 0) if v.w < 32 else t
    ex.opts["atomicrmw"] = rmw
    ex.opts["free_loops"] = True
    f = find(r"::convert\(.*::(\$_\d+|\{lambda\(\)#\d+\})::operator\(\)\(\) const$")
    st = X.State(); ex.assumptions += hy
    st, r = tex.call(ex, st, f, [X.ptr(X.Base("CLO"))])
    ins = [N]
    def ob(s, name, g, more=()): ex.oblige(s, "worker: " + name, g, "post", ins + list(more))
    ob(st, "the job counter is accessed only by atomic increments", T.const(int(not bad), 0))
    for n, rg in st.mem.items():
        if n.startswith(("alloca", "a:")): continue
        if (rg.log if rg.log is not None else rg.cells): ob(st, "writes nothing that is shared (%s)" % n, T.FALSE)
    if bad or any(not n.startswith(("alloca", "a:")) and (g.log if g.log is not None else g.cells) for n, g in st.mem.items()):
        run.discharge_into(res, ex.obs, ins); run.collect(res, ex); return
    tr = st.trace
    lp = [e for e in tr if isinstance(e, X.LoopEv)]; out = [e for e in tr if not isinstance(e, X.LoopEv)]
    if len(lp) != 1: raise Shape("the worker is not one loop: %s" % kinds(X.LoopEv(None, None, tr, T.TRUE)))
    L = lp[0]
    def part(evs): return [e for e in evs if e.name == "ticket"], [e for e in evs if e.name == "process"], [e for e in evs if e.name not in ("ticket", "process")]
    if any(isinstance(e, X.LoopEv) for e in L.body): raise Shape("loop in the worker's loop")
    tk, pr, ot = part(L.body); s = st.fork(); s.pc = T.and_(st.pc, L.guard, T.ult(L.k, L.n))
    s.assume = s.assume + loops.instances(ex, [[L.k]])
    ob(s, "does nothing but process jobs", T.const(int(not ot), 0))
    # before and after the loop: the tickets drawn there
    tk0, pr0, ot0 = part(out)
    seq = []     # (state, ticket, processes) : one per ticket drawn
    if len(tk) != 1 or len(pr) > 1 or len(tk0) > 1 or len(pr0) > 1: raise Shape("tickets drawn per iteration: %d in the loop, %d outside" % (len(tk), len(tk0)))
    def check(s2, what, t, ps, more):
        s3 = s2.fork(); s3.pc = T.and_(s2.pc, T.ult(t.args[0], N))
        ob(s3, "the job of every ticket %s is processed" % what, T.or_(*[p.guard for p in ps]) if ps else T.FALSE, more)
        for p in ps:
            s4 = s2.fork(); s4.pc = T.and_(s2.pc, p.guard)
            ob(s4, "only tickets of existing jobs are processed %s" % what, T.and_(t.guard, T.ult(t.args[0], N)), more)
            ob(s4, "the job processed %s is that of the ticket" % what, T.and_(T.eq(p.args[1], jx(t.args[0])), T.eq(p.args[2], jy(t.args[0]))), more)
            ob(s4, "it is processed by the image's converter %s" % what, same(p.args[0], X.ptr(X.Base("CVO"))), more)
            if by_has(by, "EL"): ob(s4, "with this worker's data %s" % what, same(p.args[3], X.ptr(X.Base("TD"))), more)
    ob(s, "every iteration draws one ticket", tk[0].guard, [L.k])
    if tr.index(L) != 0 and tk0 and tr.index(tk0[0]) < tr.index(L):
        raise Shape("a ticket is drawn before the loop")
    check(s, "drawn in the loop", tk[0], pr, [L.k])
    if not tk0: ob(st, "ends only with a ticket beyond the last job", T.FALSE)
    else:
        s5 = st.fork(); s5.assume = s5.assume + loops.instances(ex, [[L.n]])
        check(s5, "drawn last", tk0[0], pr0, [L.n])
        ob(s5, "ends only with a ticket beyond the last job", T.and_(tk0[0].guard, T.ule(N, tk0[0].args[0])), [L.n])
    res.functions.append(P.dem[f.name])
    # the tickets: an atomic counter from zero hands out 0..c-1 once each; a worker ended with ticket e >= N, so c > N: every t < N was handed out
    e, c, t = T.var("e", 32), T.var("c", 32), T.var("t", 32)
    s6 = X.State(); s6.pc = T.and_(T.ule(N, e), T.ult(e, c), T.ult(t, N))
    ex.oblige(s6, "lemma: every ticket of a job was handed out when a worker ends", T.ult(t, c), "lemma", [N, e, c, t])
    a, b = T.var("drawn for jobs", 32), T.var("drawn by ending workers", 32)
    s7 = X.State(); s7.pc = T.and_(T.ule(a, N), T.ule(b, N))
    ex.oblige(s7, "lemma: the counter does not wrap", T.ule(T.add(T.zext(a, 64), T.zext(b, 64)), C64((1 << min(width or [32])) - 1)), "lemma", [N, a, b])
    run.discharge_into(res, ex.obs, ins); run.collect(res, ex)
def by_has(by, k): return k in by.values()
def unit_worker(res):
    """the worker, given what convert hands to it"""
    w = W(); st, r = w.call(T.and_(T.ult(C32(1), w.threads), T.ne(w.n0, C32(0))))
    if not w.spawns: raise Shape("no worker is started")
    ex_worker(res, w, w.spawns[0])
