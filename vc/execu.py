"""Symbolic execution / VC generation over LLVM IR with contracts (function-modular).

 * a call to a function that has a contract is replaced by that contract (precondition obliged, frame havocked,
   postcondition assumed);  a defined callee without contract is executed in place (so an extracted helper needs no
   contract);  an external function without contract makes the verification undecided.
 * loops whose trip condition is concrete are unrolled completely;  other loops are cut with the loop rule in
   `summarise` (closed-form induction variables + loop contract), no bound on iterations.
 * states are merged at join points, so one pass covers every path."""
import re, subprocess
from . import term as T
from . import llir

class Unsupported(Exception): pass

_fresh = [0]
ACTIVE = []          # counters of the loops whose body is being executed: fresh values are functions of them
def fresh(name, w):
    _fresh[0] += 1
    if ACTIVE: return T.uf("%s!%d" % (name, _fresh[0]), list(ACTIVE), w)
    return T.var("%s!%d" % (name, _fresh[0]), w)

# ------------------------------------------------------------------ pointers
class Base:
    """An allocated object; `idx` are terms so that one name stands for a family of objects."""
    __slots__ = ("name", "idx", "size", "ty")
    def __init__(self, name, idx=(), size=None, ty=None):
        self.name = name; self.idx = tuple(idx); self.size = size; self.ty = ty
    def key(self): return (self.name, tuple(i.id for i in self.idx))
    def __repr__(self): return self.name + ("[%s]" % ",".join(map(repr, self.idx)) if self.idx else "")

C64 = lambda v: T.const(v, 64)

class Ptr:
    """guarded set of (cond, base or None, offset); base None: plain integer address (0 = null)"""
    __slots__ = ("cases",)
    def __init__(self, cases): self.cases = cases
    def __repr__(self): return "Ptr" + repr([(c, b, o) for c, b, o in self.cases])
    def off(self, d):
        return Ptr([(c, b, T.add(o, d)) for c, b, o in self.cases])
    def single(self):
        if len(self.cases) != 1: raise Unsupported("multi-target pointer")
        return self.cases[0][1], self.cases[0][2]

def ptr(base, off=0):
    return Ptr([(T.TRUE, base, C64(off) if isinstance(off, int) else off)])
NULL = Ptr([(T.TRUE, None, C64(0))])

def ptr_is_null(p):
    return T.or_(*[T.and_(c, T.eq(o, C64(0))) for c, b, o in p.cases if b is None])

def same_base(a, b):
    if a is None or b is None: return a is b
    return a.key() == b.key()

def base_eq(a, b):
    """term: a and b denote the same object"""
    if a is None or b is None: return T.const(a is b, 0)
    if a.name != b.name or len(a.idx) != len(b.idx): return T.FALSE
    return T.and_(*[T.eq(x, y) for x, y in zip(a.idx, b.idx)])

def norm_ptr(cases):
    out = []
    for c, b, o in cases:
        if c is T.FALSE: continue
        for i, (c2, b2, o2) in enumerate(out):
            if same_base(b, b2):
                out[i] = (T.or_(c2, c), b2, T.ite(c, o, o2)); break
            if b is not None and b2 is not None and b.name == b2.name and len(b.idx) == len(b2.idx):
                nb = Base(b.name, [T.ite(c, x, y) for x, y in zip(b.idx, b2.idx)], b.size, b.ty)
                out[i] = (T.or_(c2, c), nb, T.ite(c, o, o2)); break
        else: out.append((c, b, o))
    return Ptr(out)

def ite_val(c, a, b):
    if c is T.TRUE: return a
    if c is T.FALSE: return b
    if a is b: return a
    if isinstance(a, T.T) and isinstance(b, T.T): return T.ite(c, a, b)
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        nc = T.not_(c)
        return norm_ptr([(T.and_(c, x), p, o) for x, p, o in a.cases] + [(T.and_(nc, x), p, o) for x, p, o in b.cases])
    if isinstance(a, tuple) and isinstance(b, tuple):
        return tuple(ite_val(c, x, y) for x, y in zip(a, b))
    if a is None: return b
    if b is None: return a
    if isinstance(a, Opaque) or isinstance(b, Opaque): raise Unsupported("merge of opaque values")
    raise Unsupported("merge %r %r" % (type(a), type(b)))

class Opaque:
    """a value we only pass around (function pointers, vtables)"""
    def __init__(self, tag): self.tag = tag
    def __repr__(self): return "Opaque(%s)" % (self.tag,)

def val_bits(v):
    return v

# ------------------------------------------------------------------ memory
class Region:
    __slots__ = ("cells", "log")
    def __init__(self): self.cells = {}; self.log = None
    def copy(self):
        r = Region(); r.cells = dict(self.cells); r.log = None if self.log is None else list(self.log)
        return r

class Write:
    """one write, or (ks non-empty) the writes of every iteration k < bound of the loops in ks"""
    __slots__ = ("guard", "idx", "off", "size", "val", "ks", "facts")
    def __init__(self, guard, idx, off, size, val, ks=(), facts=()):
        self.ks = ks; self.facts = facts
        self.guard = guard; self.idx = idx; self.off = off; self.size = size; self.val = val
    def __repr__(self): return "W(%r,%r,%r,%d,%r)" % (self.guard, self.idx, self.off, self.size, self.val)

class State:
    __slots__ = ("pc", "mem", "trace", "assume", "ghost")
    def __init__(self): self.pc = T.TRUE; self.mem = {}; self.trace = []; self.assume = []; self.ghost = {}
    def fork(self):
        s = State(); s.pc = self.pc; s.mem = dict(self.mem); s.trace = list(self.trace); s.assume = self.assume; s.ghost = dict(self.ghost)
        return s

def conj(t): return {a.id: a for a in (t.args if t.op == "and" else (t,))}

def strip_common(p1, p2):
    a, b = conj(p1), conj(p2)
    common = set(a) & set(b)
    return T.and_(*[v for k, v in a.items() if k not in common]), T.and_(*[v for k, v in b.items() if k not in common])

class Event:
    __slots__ = ("guard", "name", "args", "res", "pc")
    def __init__(self, name, args, guard=T.TRUE, res=None): self.name = name; self.args = args; self.guard = guard; self.res = res
    def __repr__(self): return "Ev(%s%s%r)" % ("" if self.guard is T.TRUE else "%r? " % self.guard, self.name, self.args)
    def guarded(self, g):
        e = Event(self.name, self.args, T.and_(g, self.guard), self.res); return e

class LoopEv:
    """for k in [0,n): body"""
    __slots__ = ("guard", "k", "n", "body", "name", "early")
    def __init__(self, k, n, body, guard=T.TRUE, name="loop", early=None):
        self.k = k; self.n = n; self.body = body; self.guard = guard; self.name = name; self.early = early
    def __repr__(self): return "%sfor %r<%r:%r" % ("" if self.guard is T.TRUE else "%r? " % self.guard, self.k, self.n, self.body)
    def guarded(self, g): return LoopEv(self.k, self.n, self.body, T.and_(g, self.guard), self.name, self.early)

class Ob:
    __slots__ = ("name", "kind", "hyps", "goal", "where", "inputs")
    def __init__(self, name, kind, hyps, goal, where="", inputs=()):
        self.name = name; self.kind = kind; self.hyps = hyps; self.goal = goal; self.where = where; self.inputs = inputs

# ------------------------------------------------------------------ CFG
class CFG:
    def __init__(self, f):
        self.f = f
        succ = {}
        for b in f.order:
            t = f.blocks[b][-1]
            if t.op == "br": succ[b] = [t.a[0]] if len(t.a) == 1 else [t.a[1], t.a[2]]
            elif t.op == "switch": succ[b] = [t.a[1]] + [c[1] for c in t.a[2]]
            elif t.op == "invoke": succ[b] = [t.a[2]]
            else: succ[b] = []
        self.succ = {b: list(dict.fromkeys(s)) for b, s in succ.items()}
        entry = f.order[0]
        seen = set(); post = []
        st = [(entry, iter(self.succ[entry]))]; seen.add(entry)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); st.append((s, iter(self.succ[s]))); break
            else:
                post.append(b); st.pop()
        self.rpo = post[::-1]; self.num = {b: i for i, b in enumerate(self.rpo)}
        pred = {b: [] for b in self.rpo}
        for b in self.rpo:
            for s in self.succ[b]: pred[s].append(b)
        self.pred = pred
        # dominators
        idom = {entry: entry}; ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                ps = [p for p in pred[b] if p in idom]
                n = ps[0]
                for p in ps[1:]:
                    x, y = p, n
                    while x != y:
                        while self.num[x] > self.num[y]: x = idom[x]
                        while self.num[y] > self.num[x]: y = idom[y]
                    n = x
                if idom.get(b) != n: idom[b] = n; ch = True
        self.idom = idom
        def dom(a, b):
            while True:
                if a == b: return True
                if b == entry: return False
                b = idom[b]
        self.loops = {}
        for b in self.rpo:
            for s in self.succ[b]:
                if self.num[s] <= self.num[b]:
                    if not dom(s, b): raise Unsupported("irreducible control flow in " + f.name)
                    L = self.loops.setdefault(s, {s})
                    stk = [b]
                    while stk:
                        x = stk.pop()
                        if x in L: continue
                        L.add(x); stk.extend(pred[x])
        # order of loops as they appear
        self.loop_order = [b for b in self.rpo if b in self.loops]

# ------------------------------------------------------------------ executor
class Program:
    def __init__(self, modules):
        self.modules = modules
        self.funcs = {}
        for m in modules:
            for n, f in m.funcs.items():
                if not f.decl and (n not in self.funcs or self.funcs[n].decl): self.funcs[n] = f
        names = list(self.funcs) + [n for m in modules for n in m.funcs]
        names = list(dict.fromkeys(names))
        out = subprocess.run(["c++filt"], input="\n".join(names), capture_output=True, text=True).stdout.split("\n")
        self.dem = dict(zip(names, out))
        self.cfgs = {}
    def find(self, mod, name):
        f = mod.funcs.get(name)
        if f is not None and not f.decl: return f
        if name in mod.aliases: return self.find(mod, mod.aliases["@" + name][1:]) if ("@" + name) in mod.aliases else None
        if "@" + name in mod.aliases: return self.find(mod, mod.aliases["@" + name][1:])
        r = self.funcs.get(name)
        if r is None:
            for m in self.modules:
                if m is not mod and "@" + name in m.aliases: return self.find(m, m.aliases["@" + name][1:])
        return r
    def cfg(self, f):
        k = id(f)
        c = self.cfgs.get(k)
        if c is None:
            f.module.body(f); c = self.cfgs[k] = CFG(f)
        return c
    def by_dem(self, dem):
        r = [n for n, d in self.dem.items() if d == dem and n in self.funcs]
        return r[0] if r else None

class Frame:
    def __init__(self, f, cfg): self.f = f; self.cfg = cfg; self.env = {}; self.rets = []; self.mod = f.module

class Executor:
    def __init__(self, prog, contracts=(), loop_contracts=None, opts=None):
        self.dec = {}
        self.prog = prog
        self.contracts = list(contracts)         # (regex on demangled name, handler)
        self.obs = []
        self.loop_contracts = loop_contracts or {}
        self.assumptions = []                     # global hypotheses (terms)
        self.used_contracts = {}
        self.inlined = set()
        self.unknown_calls = set()
        self.init_hooks = {}                      # region name -> f(base, off, ty, ex) -> value
        self.arrays = set()                       # region names in log mode
        self.sizes = {}                           # region name -> f(base) -> size term
        self.opts = opts or {}
        self.ub = self.opts.get("ub", True)
        self.depth = 0
        self.globals_ro = {}
        self.reads = None; self.foralls = []
        self.alloca_n = 0
        self.maxunroll = self.opts.get("maxunroll", 128)
        self.cur_where = ""
        self.stack = []
        self._cc = {}

    # ---- obligations
    def oblige(self, st, name, goal, kind="post", inputs=()):
        if goal is T.TRUE and kind in ("bounds", "ub"):
            self.obs.append(Ob(name, kind, [], T.TRUE, self.cur_where)); return
        self.obs.append(Ob(name, kind, self.assumptions + list(st.assume) + [st.pc], goal, self.cur_where, inputs))

    # ---- values
    def undef(self, ty, mod):
        t = mod.resolve(ty)
        if t[0] in ("int",): return fresh("undef", t[1])if t[1] != 1 else fresh("undef", 0)
        if t[0] == "float": return fresh("undef", t[1])
        if t[0] == "ptr": return NULL
        if t[0] == "vec" or t[0] == "arr": return tuple(self.undef(t[2], mod) for _ in range(t[1]))
        if t[0] == "struct": return tuple(self.undef(x, mod) for x in t[1])
        raise Unsupported("undef %r" % (t,))
    def zero(self, ty, mod):
        t = mod.resolve(ty)
        if t[0] == "int": return T.const(0, t[1] if t[1] != 1 else 0)
        if t[0] == "float": return T.const(0, t[1])
        if t[0] == "ptr": return NULL
        if t[0] in ("vec", "arr"): return tuple(self.zero(t[2], mod) for _ in range(t[1]))
        if t[0] == "struct": return tuple(self.zero(x, mod) for x in t[1])
        raise Unsupported("zero %r" % (t,))

    def operand(self, fr, ty, op):
        k = op[0]
        if k == "l":
            try: return fr.env[op[1]]
            except KeyError: raise Unsupported("undefined value %s in %s" % (op[1], fr.f.name))
        mod = fr.mod
        if k == "int":
            t = mod.resolve(ty)
            if t[0] == "int": return T.const(op[1], t[1] if t[1] != 1 else 0)
            raise Unsupported("int const of type %r" % (t,))
        if k == "fp":
            t = mod.resolve(ty)
            return T.const(T.f2b(op[1], t[1]), t[1])
        if k == "null": return NULL
        if k == "undef": return self.undef(ty, mod)
        if k == "zero": return self.zero(ty, mod)
        if k == "agg": return tuple(self.operand(fr, t, o) for t, o in op[1])
        if k == "str": return tuple(T.const(b, 8) for b in op[1])
        if k == "g": return self.global_ptr(mod, op[1])
        if k == "cgep":
            base = self.operand(fr, op[2][0][0], op[2][0][1])
            return self.gep(fr, op[1], base, [(t, self.operand(fr, t, o)) for t, o in op[2][1:]])
        if k == "ccast":
            v = self.operand(fr, op[2], op[3])
            return self.cast(op[1], op[2], v, op[4], mod)
        raise Unsupported("operand %r" % (op,))

    def global_ptr(self, mod, name):
        n = name[1:]
        f = self.prog.find(mod, n)
        if f is not None or n in mod.funcs: return Ptr([(T.TRUE, Base("fn:" + n), C64(0))])
        g = mod.globals.get(name)
        if g is None or g[2] is None:
            for m2 in self.prog.modules:
                g2 = m2.globals.get(name)
                if g2 is not None and g2[2] is not None: mod, g = m2, g2; break
        if g is None: return Ptr([(T.TRUE, Base("g:" + n), C64(0))])
        b = Base("g:%s" % n if not g[0] or g[2] is None else "ro:%s#%d" % (n, id(mod)), (), None, None)
        if g[0] and g[2] is not None:
            self.globals_ro[b.name] = (mod, g)
        return Ptr([(T.TRUE, b, C64(0))])

    # ---- memory
    def region(self, st, name):
        r = st.mem.get(name)
        return r

    def wregion(self, st, name):
        r = st.mem.get(name)
        r = Region() if r is None else r.copy()
        if r.log is None and name in self.arrays: r.log = []
        st.mem[name] = r
        return r

    def flatten(self, mod, ty, v, off=0):
        """-> list of (offset,size,value) of scalar leaves"""
        t = mod.resolve(ty)
        if t[0] in ("int", "float", "ptr"): return [(off, mod.size(t), v)]
        if t[0] in ("arr", "vec"):
            s = mod.size(t[2]); out = []
            for i in range(t[1]): out += self.flatten(mod, t[2], v[i], off + i * s)
            return out
        if t[0] == "struct":
            out = []
            for i, x in enumerate(t[1]):
                o, _ = mod.field(t, i); out += self.flatten(mod, x, v[i], off + o)
            return out
        raise Unsupported("flatten")

    def ro_init(self, name, off, size, ty, mod):
        mod0, g = self.globals_ro[name]
        class F: pass
        fr = F(); fr.env = {}; fr.mod = mod0; fr.f = F(); fr.f.name = "global"
        if g[2] is None: return None
        key = "cells:" + name
        if key not in self._cc:
            v = self.operand(fr, g[1], g[2])
            self._cc[key] = {o: (s, x) for o, s, x in self.flatten(mod0, g[1], v)}
        return self._cc[key]

    def init_read(self, base, off, size, ty):
        """initial content of memory"""
        hook = self.init_hooks.get(base.name)
        if hook:
            r = hook(self, base, off, size, ty)
            if r is not None: return r
        if base.name.startswith("ro:"):
            cells = self.ro_init(base.name, off, size, ty, None)
            if cells is not None:
                if T.isc(off):
                    return self.read_cells(cells, off.x, size, ty, lambda o, s: T.const(0, 8 * s))
                # symbolic index into a constant table
                ks = [o for o in sorted(cells) if cells[o][0] == size]
                if ks and len(ks) <= 512:
                    r = cells[ks[-1]][1]
                    if isinstance(r, T.T):
                        for o in reversed(ks[:-1]): r = T.ite(T.eq(off, C64(o)), cells[o][1], r)
                        return r
        nm = "m:" + base.name
        if ty[0] == "ptr":
            if T.isc(off) :
                return Ptr([(T.TRUE, Base("%s.%d" % (base.name, off.x), base.idx), C64(0))])
            return Ptr([(T.TRUE, Base("%s.*" % base.name, base.idx + (off,)), C64(0))])
        w = 8 * size
        if T.isc(off) and not base.idx: v = T.var("%s+%d:%d" % (nm, off.x, w), w)
        else: v = T.uf("%s:%d" % (nm, w), list(base.idx) + [off], w)
        return v

    def to_bytes_val(self, v, size):
        if isinstance(v, T.T):
            return T.zext(v, 8) if v.w == 0 else (T.zext(v, 8 * size) if v.w < 8 * size else v)
        raise Unsupported("bytes of pointer")

    def read_cells(self, cells, off, size, ty, miss):
        c = cells.get(off)
        if c is not None and c[0] == size: return c[1]
        # assemble from bytes
        parts = []
        for i in range(size):
            o = off + i; hit = None
            for co, (cs, cv) in cells.items():
                if co <= o < co + cs: hit = (co, cs, cv); break
            if hit is None: parts.append(miss(o, 1))
            else:
                co, cs, cv = hit
                if isinstance(cv, Ptr):
                    if cv.cases[0][1] is None and len(cv.cases) == 1:
                        cv = cv.cases[0][2]
                    else: raise Unsupported("partial pointer read")
                cv = self.to_bytes_val(cv, cs)
                parts.append(T.extract(cv, 8 * (o - co) + 7, 8 * (o - co)))
        v = parts[0]
        for p in parts[1:]: v = T.concat(p, v)
        return v

    def fix_type(self, v, ty):
        if ty[0] == "ptr":
            if isinstance(v, T.T):
                return Ptr([(T.TRUE, None, v)])
            return v
        if isinstance(v, Ptr):
            if ty[0] == "int" and ty[1] == 64: return self.ptr_int(v)
            raise Unsupported("pointer read as %r" % (ty,))
        if ty[0] == "int" and ty[1] == 1 and isinstance(v, T.T) and v.w == 8: return T.extract(v, 0, 0) if False else T.ne(T.extract(v, 0, 0), T.const(0, 1))
        if ty[0] == "int" and isinstance(v, T.T) and v.w != ty[1] and not (ty[1] == 1 and v.w == 0):
            if v.w == 0: return T.zext(v, ty[1])
            if v.w > ty[1]: return T.extract(v, ty[1] - 1, 0)
        return v

    def read(self, st, base, off, size, ty):
        if base is None: raise Unsupported("read through integer/null pointer")
        if self.reads is not None: self.reads.append((base, off, size, st.pc))
        self.rd_st = st              # for contracts that describe memory by a function of the reading state
        r = st.mem.get(base.name)
        if r is None: return self.fix_type(self.init_read(base, off, size, ty), ty)
        if r.log is not None: return self.fix_type(self.read_log(st, r.log, len(r.log), base, off, size, ty), ty)
        if T.isc(off):
            if off.x not in r.cells and not any(co < off.x + size and off.x < co + cs for co, (cs, _) in r.cells.items()):
                return self.fix_type(self.init_read(base, off, size, ty), ty)
            v = self.read_cells(r.cells, off.x, size, ty, lambda o, s: self.init_read(base, C64(o), s, ("int", 8 * s)))
            return self.fix_type(v, ty)
        # symbolic offset into a cell region
        ks = [o for o, (s, v) in r.cells.items() if s == size]
        v = self.init_read(base, off, size, ty)
        for o in sorted(ks):
            v = ite_val(T.eq(off, C64(o)), r.cells[o][1], v)
        if any(s != size for s, _ in r.cells.values()):
            self.oblige(st, "typed-access:" + base.name, T.or_(*[T.eq(off, C64(o)) for o in ks]), "mem")
        return self.fix_type(v, ty)

    def decide(self, st, c, neg=True):
        """True / False if the path condition implies c / not c (solver), None if neither is shown"""
        if c is T.TRUE or c is T.FALSE: return c is T.TRUE
        from . import smt
        hy = self.assumptions + list(st.assume) + [st.pc]
        key = (tuple(h.id for h in hy), c.id)
        if key in self.dec: return self.dec[key]
        kw = dict(timeouts=(3, 3, 3), use_cvc5=False)
        r = None
        if smt.prove(hy, c, **kw).status == "proved": r = True
        elif neg and smt.prove(hy, T.not_(c), **kw).status == "proved": r = False
        self.dec[key] = r
        return r

    def read_log(self, st, log, n, base, off, size, ty):
        if ty[0] == "ptr": return self.read_log_ptr(st, log, n, base, off, size, ty)
        return self.read_log1(st, log, n, base, off, size, ty)
    def read_log_ptr(self, st, log, n, base, off, size, ty):
        """pointers: resolve which write is seen, with the solver where the terms alone do not tell"""
        pend = None
        for i in range(n - 1, -1, -1):
            w = log[i]
            if w.guard is T.FALSE or len(w.idx) != len(base.idx): continue
            if w.ks:
                from . import loops
                so = loops.solve(w, base, off, size)
                if so is None: continue
                c, m, dl = so
                if c is T.FALSE: continue
                d = self.decide(st, c)
                if d is False: continue
                for a in w.facts: st.assume = st.assume + [T.implies(c, T.subst(a, m))]
                v = loops.sub_val(w.val, m)
            else:
                d0 = T.sub(off, w.off)
                if T.isc(d0) and (T.sval(d0) >= w.size or T.sval(d0) <= -size): continue
                c = T.and_(w.guard, T.eq(off, w.off), *[T.eq(a, b) for a, b in zip(w.idx, base.idx)])
                if c is T.FALSE: continue
                d = self.decide(st, c)
                if d is False: continue
                v = w.val
            if w.size != size: return self.read_log1(st, log, i + 1, base, off, size, ty)
            if not isinstance(v, (Ptr, Opaque)): v = self.fix_type(v, ty)
            if d is True: return v
            return ite_val(c, v, self.fix_type(self.read_log_ptr(st, log, i, base, off, size, ty), ty))
        return self.init_read(base, off, size, ty)

    def read_log1(self, st, log, n, base, off, size, ty):
        i = n - 1
        while i >= 0:
            w = log[i]
            if w.guard is T.FALSE: i -= 1; continue
            if w.ks:
                if len(w.idx) != len(base.idx): i -= 1; continue
                from . import loops
                so = loops.solve(w, base, off, size)
                if so is None or so[0] is T.FALSE: i -= 1; continue
                c, m, dl = so
                v = loops.sub_val(w.val, m)
                if w.size != size: v = T.extract(self.to_bytes_val(v, w.size), 8 * (dl + size) - 1, 8 * dl)
                for a in w.facts: st.assume = st.assume + [T.implies(c, T.subst(a, m))]
                if c is T.TRUE: return v
                return ite_val(c, self.fix_type(v, ty), self.fix_type(self.read_log1(st, log, i, base, off, size, ty), ty))
            ie = T.and_(*[T.eq(a, b) for a, b in zip(w.idx, base.idx)])
            if ie is T.FALSE: i -= 1; continue
            d = T.sub(off, w.off)
            if T.isc(d):
                dd = T.sval(d)
                if dd == 0 and w.size == size:
                    c = T.and_(w.guard, ie)
                    if c is T.TRUE: return w.val
                    return ite_val(c, self.fix_type(w.val, ty), self.fix_type(self.read_log1(st, log, i, base, off, size, ty), ty))
                if dd >= w.size or dd <= -size: i -= 1; continue
                if 0 <= dd and dd + size <= w.size and isinstance(w.val, T.T):
                    c = T.and_(w.guard, ie)
                    part = T.extract(self.to_bytes_val(w.val, w.size), 8 * (dd + size) - 1, 8 * dd)
                    if c is T.TRUE: return part
                    return ite_val(c, part, self.read_log1(st, log, i, base, off, size, ty))
                parts = [self.read_log1(st, log, n, base, T.add(off, C64(j)), 1, ("int", 8)) for j in range(size)]
                v = parts[0]
                for p in parts[1:]: v = T.concat(p, v)
                return v
            # undetermined aliasing
            if w.size != size: raise Unsupported("undetermined overlap in " + base.name)
            e = T.eq(off, w.off)
            self.oblige(st, "aligned-access:" + base.name,
                        T.or_(T.not_(w.guard), T.not_(ie), e, T.uge(d, C64(w.size)) if True else T.TRUE, ), "mem")
            c = T.and_(w.guard, ie, e)
            return ite_val(c, self.fix_type(w.val, ty), self.fix_type(self.read_log1(st, log, i, base, off, size, ty), ty))
        return self.init_read(base, off, size, ty)

    def write(self, st, base, off, size, v, mod=None, guard=T.TRUE):
        if base is None: raise Unsupported("write through integer/null pointer")
        if base.name.startswith("ro:"):
            self.oblige(st, "no write to constant", T.FALSE, "mem"); return
        r = self.wregion(st, base.name)
        if r.log is None and not base.idx and T.isc(off):
            o = off.x
            old = r.cells.get(o)
            if guard is not T.TRUE:
                ov = old[1] if old is not None and old[0] == size else self.read(st, base, off, size, ("ptr",) if isinstance(v, Ptr) else ("int", 8 * size))
                if isinstance(v, T.T) and isinstance(ov, T.T) and v.w != ov.w: ov = T.extract(ov, v.w - 1, 0) if v.w else T.ne(ov, T.const(0, ov.w))
                v = ite_val(guard, v, ov)
            if old is None or old[0] != size:
                for co in list(r.cells):
                    cs, cv = r.cells[co]
                    if co < o + size and o < co + cs and not (co == o and cs == size):
                        # split overlapped cell
                        del r.cells[co]
                        if isinstance(cv, T.T):
                            bv = self.to_bytes_val(cv, cs)
                            for j in range(cs):
                                if not (o <= co + j < o + size):
                                    r.cells[co + j] = (1, T.extract(bv, 8 * j + 7, 8 * j))
            r.cells[o] = (size, v)
            return
        if r.log is None:
            # convert to log mode
            r.log = [Write(T.TRUE, base.idx, C64(o), s, x) for o, (s, x) in sorted(r.cells.items())]
            r.cells = {}
        r.log.append(Write(guard, base.idx, off, size, v))

    def check_bounds(self, st, base, off, size, what):
        if base is None:
            self.oblige(st, "valid-pointer", T.FALSE, "bounds"); return
        sz = None
        if base.name in self.sizes: sz = self.sizes[base.name](base)
        elif base.size is not None: sz = base.size
        if sz is None: return
        if isinstance(sz, int): sz = C64(sz)
        if T.isc(sz) and T.isc(off):
            self.oblige(st, "in-bounds %s %s" % (what, base.name), T.const(off.x + size <= sz.x, 0), "bounds"); return
        # off+size <= sz without wrap
        self.oblige(st, "in-bounds %s %s" % (what, base.name), T.and_(T.ule(C64(size), sz), T.ule(off, T.sub(sz, C64(size)))), "bounds")

    def load(self, fr, st, ty, p):
        mod = fr.mod; t = mod.resolve(ty)
        if t[0] in ("arr", "vec"):
            s = mod.size(t[2])
            return tuple(self.load(fr, st, t[2], p.off(C64(i * s))) for i in range(t[1]))
        if t[0] == "struct":
            return tuple(self.load(fr, st, x, p.off(C64(mod.field(t, i)[0]))) for i, x in enumerate(t[1]))
        size = mod.size(t)
        if not isinstance(p, Ptr): raise Unsupported("load through %r" % p)
        res = None
        for c, b, o in p.cases:
            if b is None:
                self.oblige(st, "no null/wild dereference", T.not_(c), "bounds"); continue
            s2 = st
            if c is not T.TRUE:
                s2 = st.fork(); s2.pc = T.and_(st.pc, c)
            self.check_bounds(s2, b, o, size, "load")
            v = self.read(s2, b, o, size, t)
            res = v if res is None else ite_val(c, v, res)
        if res is None: return self.undef(t, mod)      # the obligation above makes this path dead
        return res

    def store(self, fr, st, ty, v, p):
        mod = fr.mod; t = mod.resolve(ty)
        for o, s, x in self.flatten(mod, t, v):
            for c, b, off in p.cases:
                if b is None:
                    self.oblige(st, "no null/wild dereference", T.not_(c), "bounds"); continue
                off2 = T.add(off, C64(o)) if o else off
                s2 = st
                if c is not T.TRUE: s2 = st.fork(); s2.pc = T.and_(st.pc, c)
                self.check_bounds(s2, b, off2, s, "store")
                self.write(st, b, off2, s, x, mod, c)

    def gep(self, fr, ty, p, idx):
        mod = fr.mod
        if isinstance(p, tuple): raise Unsupported("vector gep")
        t0, i0 = idx[0]
        off = self.mul_idx(t0, i0, mod.size(ty))
        t = ty
        for it, iv in idx[1:]:
            rt = mod.resolve(t)
            if rt[0] == "struct":
                o, t = mod.field(rt, iv.x); off = T.add(off, C64(o))
            elif rt[0] in ("arr", "vec"):
                t = rt[2]; off = T.add(off, self.mul_idx(it, iv, mod.size(t)))
            else: raise Unsupported("gep into %r" % (rt,))
        return p.off(off)

    def mul_idx(self, it, iv, s):
        if iv.w < 64: iv = T.sext(iv, 64)
        return T.mulc(iv, s)

    def ptr_int(self, p):
        """address as integer: symbolic base address + offset"""
        r = None
        for c, b, o in p.cases:
            if b is None: v = o
            else:
                a = T.var("addr:" + b.name, 64) if not b.idx else T.uf("addr:" + b.name, list(b.idx), 64)
                v = T.add(a, o)
            r = v if r is None else T.ite(c, v, r)
        return r

    def cast(self, op, t1, v, t2, mod):
        r1, r2 = mod.resolve(t1), mod.resolve(t2)
        if r1[0] == "vec" and r2[0] == "vec" and r1[1] == r2[1] and op != "bitcast":
            return tuple(self.cast(op, r1[2], x, r2[2], mod) for x in v)
        if op == "bitcast":
            if r1 == r2: return v
            if r1[0] in ("int", "float") and r2[0] in ("int", "float"): return v
            fl = self.flatten(mod, r1, v) if r1[0] == "vec" else [(0, mod.size(r1), v)]
            cells = {o: (s, x) for o, s, x in fl}
            def rd(o, s, ty): return self.fix_type(self.read_cells(cells, o, s, ty, lambda a, b: T.const(0, 8 * b)), ty)
            if r2[0] == "vec":
                s = mod.size(r2[2])
                return tuple(rd(i * s, s, r2[2]) for i in range(r2[1]))
            return rd(0, mod.size(r2), r2)
        if op == "ptrtoint": 
            x = self.ptr_int(v)
            return T.extract(x, r2[1] - 1, 0) if r2[1] < 64 else x
        if op == "inttoptr":
            return self.int_ptr(T.zext(v, 64) if v.w < 64 else v)
        w = r2[1]
        W = 0 if (r2[0] == "int" and w == 1) else w
        if op == "trunc":
            if W == 0: return T.ne(T.extract(v, 0, 0), T.const(0, 1))
            return T.trunc(v, W)
        if op == "zext": return T.zext(v, W)
        if op == "sext": return T.sext(v, W)
        if op in ("fptrunc", "fpext"): return T.fp("fp.cvt", [v], w)
        if op in ("uitofp", "sitofp"):
            if v.w == 0: v = T.zext(v, 8) if op == "uitofp" else T.sext(v, 8)
            if op == "sitofp" and T.known_zero_high(v) >= 1: op = "uitofp"
            return T.fp("fp.fromui" if op == "uitofp" else "fp.fromsi", [v], w)
        if op in ("fptoui", "fptosi"):
            # the conversion is obliged to be in range (fpto_check), so a narrow conversion is the low part of the wide one
            x = T.fp("fp.toui" if op == "fptoui" else "fp.tosi", [v], max(32, w))
            return T.trunc(x, w) if w < 32 else x
        raise Unsupported("cast " + op)

    def int_ptr(self, v):
        c, d = T.lin_parts(v)
        for a, k in d.items():
            if k == 1 and a.op == "var" and a.x.startswith("addr:"):
                rest = T.sub(v, a)
                return Ptr([(T.TRUE, Base(a.x[5:]), rest)])
        return Ptr([(T.TRUE, None, v)])

    def icmp(self, st, p, a, b):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if p in ("eq", "ne"):
                e = T.FALSE
                for c1, b1, o1 in a.cases:
                    for c2, b2, o2 in b.cases:
                        if b1 is None and b2 is None: k = T.eq(o1, o2)
                        elif b1 is None or b2 is None:
                            bb, oo = (b2, o1) if b1 is None else (b1, o2)
                            ob = o2 if b1 is None else o1
                            if T.isc(oo) and oo.x == 0: k = self.maybe_null(bb)
                            else: k = T.FALSE
                        else: k = T.and_(base_eq(b1, b2), T.eq(o1, o2))
                        e = T.or_(e, T.and_(c1, c2, k))
                return e if p == "eq" else T.not_(e)
            b1, o1 = a.single(); b2, o2 = b.single()
            if not same_base(b1, b2): raise Unsupported("pointer order across objects")
            a, b = o1, o2
        if p == "eq": return T.eq(a, b)
        if p == "ne": return T.ne(a, b)
        if a.w == 0: a, b = T.zext(a, 8), T.zext(b, 8)
        return {"ult": T.ult, "ule": T.ule, "ugt": T.ugt, "uge": T.uge, "slt": T.slt, "sle": T.sle,
                "sgt": lambda x, y: T.slt(y, x), "sge": lambda x, y: T.sle(y, x)}[p](a, b)

    def maybe_null(self, base):
        """a pointer into a known object is not null unless a hook says it may be"""
        h = self.opts.get("maybe_null")
        if h:
            r = h(base)
            if r is not None: return r
        return T.FALSE

    def fcmp(self, p, a, b):
        lt = lambda x, y: T.fp("fp.lt", [x, y], 0)
        le = lambda x, y: T.fp("fp.le", [x, y], 0)
        eq = lambda x, y: T.fp("fp.eq", [x, y], 0)
        nan = lambda x: T.FALSE if (T.isc(x) and T.b2f(x.x, x.w) == T.b2f(x.x, x.w)) else T.fp("fp.isnan", [x], 0)
        if p == "true": return T.TRUE
        if p == "false": return T.FALSE
        un = T.or_(nan(a), nan(b))
        if p == "uno": return un
        if p == "ord": return T.not_(un)
        base = {"lt": lambda: lt(a, b), "le": lambda: le(a, b), "gt": lambda: lt(b, a), "ge": lambda: le(b, a), "eq": lambda: eq(a, b)}
        if p == "une": return T.not_(eq(a, b))
        if p == "one": return T.or_(lt(a, b), lt(b, a))
        if p[0] == "o": return base[p[1:]]()
        # u** = not o(inverse)
        inv = {"lt": "ge", "le": "gt", "gt": "le", "ge": "lt"}
        if p == "ueq": return T.or_(eq(a, b), un)
        return T.not_(base[inv[p[1:]]]())

    # ---- control
    def merge(self, edges):
        """edges: list of (state, phivals) -> (state, phivals)"""
        edges = [e for e in edges if e[0].pc is not T.FALSE]
        if not edges: return None
        # innermost (latest) exits first: writes shared by later exits stay a common prefix
        st, ph = edges[-1]
        for s2, p2 in reversed(edges[:-1]):
            st, ph = self.merge2(s2, p2, st, ph)
        return st, ph

    def merge2(self, s1, p1, s2, p2):
        g1, g2 = strip_common(s1.pc, s2.pc)
        out = State()
        out.pc = T.or_(s1.pc, s2.pc)
        c = g1
        # decide with the simpler guard
        out.assume = s1.assume if s1.assume is s2.assume else s1.assume + [T.implies(s2.pc, a) for a in s2.assume if all(a is not b for b in s1.assume)]
        for n in set(s1.mem) | set(s2.mem):
            a, b = s1.mem.get(n), s2.mem.get(n)
            if a is b: out.mem[n] = a; continue
            out.mem[n] = self.merge_region(n, a, b, g1, g2, s1, s2)
        out.trace = self.merge_logs(s1.trace, s2.trace, g1, g2, lambda e, g: e.guarded(g))
        for k in set(s1.ghost) | set(s2.ghost):
            a, b = s1.ghost.get(k), s2.ghost.get(k)
            out.ghost[k] = a if a is b else ite_val(c, a, b)
        ph = {}
        for k in p1:
            if k in p2: ph[k] = ite_val(c, p1[k], p2[k])
        return out, ph

    def merge_logs(self, a, b, g1, g2, gd):
        i = 0
        while i < len(a) and i < len(b) and a[i] is b[i]: i += 1
        return a[:i] + [gd(w, g1) for w in a[i:]] + [gd(w, g2) for w in b[i:]]

    def merge_region(self, n, a, b, g1, g2, s1, s2):
        a = a or Region(); b = b or Region()
        out = Region()
        if a.log is not None or b.log is not None:
            la = a.log if a.log is not None else [Write(T.TRUE, (), C64(o), s, x) for o, (s, x) in sorted(a.cells.items())]
            lb = b.log if b.log is not None else [Write(T.TRUE, (), C64(o), s, x) for o, (s, x) in sorted(b.cells.items())]
            out.log = self.merge_logs(la, lb, g1, g2, lambda w, g: Write(T.and_(g, w.guard), w.idx, w.off, w.size, w.val, w.ks, w.facts))
            return out
        base = Base(n)
        for o in set(a.cells) | set(b.cells):
            x, y = a.cells.get(o), b.cells.get(o)
            if x is not None and y is not None and x[0] == y[0]:
                try: out.cells[o] = (x[0], x[1] if x[1] is y[1] else ite_val(g1, x[1], y[1]))
                except Unsupported:
                    out.cells[o] = (x[0], Opaque("conflict"))
                continue
            s = (x or y)[0]
            ty = ("ptr",) if isinstance((x or y)[1], Ptr) else ("int", 8 * s)
            if x is not None and y is not None: 
                # different sizes: reconcile bytewise
                s = min(x[0], y[0]); ty = ("int", 8 * s)
                m = max(x[0], y[0])
                for j in range(m):
                    u = self.read(s1, base, C64(o + j), 1, ("int", 8)); v = self.read(s2, base, C64(o + j), 1, ("int", 8))
                    out.cells[o + j] = (1, T.ite(g1, u, v))
                continue
            if o in out.cells: continue
            # missing on one side
            try:
                u = self.read(s1, base, C64(o), s, ty); v = self.read(s2, base, C64(o), s, ty)
                out.cells[o] = (s, self.widen(ite_val(g1, *self.same_w(u, v)), s))
            except Unsupported:
                out.cells[o] = (s, Opaque("conflict"))
        return out

    def same_w(self, u, v):
        if isinstance(u, T.T) and isinstance(v, T.T) and u.w != v.w:
            w = max(u.w, v.w); return T.zext(u, w), T.zext(v, w)
        return u, v
    def widen(self, v, s): return v

    def phis(self, fr, block): return [i for i in fr.f.blocks[block] if i.op == "phi"]

    def edge(self, fr, frm, to, st):
        ph = {}
        for i in self.phis(fr, to):
            for v, b in i.a[0]:
                if b == frm:
                    ph[i.res] = self.operand(fr, i.ty, v); break
        return (frm, to, st, ph)

    def run_region(self, fr, header, body, in_edges):
        """execute the blocks of `body` from `header`; returns (back_edges, exit_edges)"""
        pending = {header: in_edges}
        back, exits = [], []
        cfg = fr.cfg
        inner = {}
        for h, L in cfg.loops.items():
            if h != header and h in body: inner[h] = L
        skip = set()
        for b in cfg.rpo:
            if b not in body or b in skip: continue
            es = pending.pop(b, None)
            if not es: continue
            if b in inner and b != header:
                L = inner[b]
                skip |= (L - {b})
                outs = self.run_loop(fr, b, L, es)
            else:
                m = self.merge([(e[2], e[3]) for e in es])
                if m is None: continue
                outs = self.run_block(fr, b, m[0], m[1])
            for e in outs:
                if e[2].pc is T.FALSE: continue
                if e[1] == header: back.append(e)
                elif e[1] not in body: exits.append(e)
                else: pending.setdefault(e[1], []).append(e)
        return back, exits

    def run_loop(self, fr, header, L, es):
        lid = (self.prog.dem.get(fr.f.name, fr.f.name), fr.cfg.loop_order.index(header))
        exits = []
        n = 0
        first = True
        while True:
            m = self.merge([(e[2], e[3]) for e in es])
            if m is None: return exits
            if not self.concrete_trip(fr, header, L, m):
                r = self.unroll(fr, header, L, m) if self.opts.get("unroll_bounded") else None
                if r is not None: return exits + r
                from . import loops
                exits += loops.rule(self, fr, header, L, m, lid)
                return exits
            first = False
            back, ex = self.run_region(fr, header, L, [(None, header, m[0], m[1])])
            exits += ex
            if not back: return exits
            es = back
            n += 1
            if n > self.maxunroll: raise Unsupported("unroll limit in %s #%d" % lid)

    def unroll(self, fr, header, L, m):
        """a loop that the solver shows to end within opts["unroll_bounded"] iterations; None if it does not"""
        env0 = dict(fr.env); nobs = len(self.obs); rets = list(fr.rets); nf = len(self.foralls); reads = None if self.reads is None else list(self.reads)
        exits = []; es = [(None, header, m[0], m[1])]
        try:
            for n in range(1, self.opts["unroll_bounded"] + 2):
                back, ex = self.run_region(fr, header, L, es)
                exits += ex
                if not back: return exits
                b = self.merge([(e[2], e[3]) for e in back])
                if b is None: return exits
                if n > 1:
                    s = b[0].fork(); s.pc = T.TRUE
                    if self.decide(s, T.not_(b[0].pc), neg=False): return exits
                es = [(None, header, b[0], b[1])]
        except Unsupported: pass
        fr.env.clear(); fr.env.update(env0); del self.obs[nobs:]; fr.rets[:] = rets; del self.foralls[nf:]; self.reads = reads
        return None

    def concrete_trip(self, fr, header, L, m):
        """does some conditional exit of the loop header evaluate to a constant with the current phi values?"""
        f = fr.f
        saved = dict(fr.env)
        try:
            for k, v in m[1].items(): fr.env[k] = v
            # walk from the header along straight-line code, evaluating pure instructions
            b = header; steps = 0
            while True:
                steps += 1
                if steps > 200: return False
                for ins in f.blocks[b]:
                    if ins.op == "phi": continue
                    if ins.op in ("br", "switch", "ret", "unreachable"): t = ins; break
                    try:
                        if ins.op in PURE: fr.env[ins.res] = self.pure(fr, m[0], ins)
                        elif ins.op == "load":
                            save = self.obs; self.obs = []
                            try: fr.env[ins.res] = self.load(fr, m[0], ins.ty, self.operand(fr, ("ptr",), ins.a[0]))
                            finally: self.obs = save
                        elif ins.op == "call" and self.opts.get("pure_calls") and self.opts["pure_calls"](self, fr, ins):
                            save = self.obs; self.obs = []
                            try: 
                                s2 = m[0].fork(); fr.env[ins.res] = self.call(fr, s2, ins)
                            finally: self.obs = save
                        else:
                            if ins.res: fr.env.pop(ins.res, None)
                    except Unsupported:
                        if ins.res: fr.env.pop(ins.res, None)
                if t.op == "br" and len(t.a) == 1:
                    b = t.a[0]
                    if b == header or b not in L: return b not in L
                    # phis of the single successor
                    for i in self.phis(fr, b):
                        fr.env.pop(i.res, None)
                    continue
                if t.op == "br":
                    try: c = self.operand(fr, ("int", 1), t.a[0])
                    except Unsupported: return False
                    if t.a[1] in L and t.a[2] in L and t.a[1] != header and t.a[2] != header:
                        if T.isc(c): b = t.a[1] if c.x else t.a[2]; [fr.env.pop(i.res, None) for i in self.phis(fr, b)]; continue
                        return False
                    return T.isc(c)
                return False
        finally:
            fr.env.clear(); fr.env.update(saved)

    def run_block(self, fr, b, st, ph):
        fr.env.update(ph)
        st = st.fork()
        for ins in fr.f.blocks[b]:
            op = ins.op
            if op == "phi": continue
            self.cur_where = "%s: %s" % (self.prog.dem.get(fr.f.name, fr.f.name)[:120], ins.txt[:120])
            if op in PURE:
                fr.env[ins.res] = self.pure(fr, st, ins)
            elif op == "load":
                fr.env[ins.res] = self.load(fr, st, ins.ty, self.operand(fr, ("ptr",), ins.a[0]))
            elif op == "store":
                self.store(fr, st, ins.ty, self.operand(fr, ins.ty, ins.a[0]), self.operand(fr, ("ptr",), ins.a[1]))
            elif op == "alloca":
                n = self.operand(fr, ("int", 64), ins.a[0]) if ins.a[0][0] == "int" else None
                if n is None: raise Unsupported("variable alloca")
                self.alloca_n += 1
                base = Base("alloca%d%s" % (self.alloca_n, ins.res), (), C64(n.x * fr.mod.size(ins.ty)), ins.ty)
                st.mem.pop(base.name, None)
                fr.env[ins.res] = ptr(base)
            elif op == "call":
                v = self.call(fr, st, ins)
                if ins.res is not None: fr.env[ins.res] = v
                if st.pc is T.FALSE: return []
            elif op == "atomicrmw":
                p = self.operand(fr, ("ptr",), ins.a[1]); v = self.operand(fr, ins.ty, ins.a[2])
                h = self.opts.get("atomicrmw")
                if h is None: raise Unsupported("atomicrmw")
                fr.env[ins.res] = h(self, st, ins.a[0], p, v)
            elif op == "ret":
                v = None if ins.a[0] is None else self.operand(fr, ins.ty, ins.a[0])
                fr.rets.append((st, {"ret": v})); return []
            elif op == "br":
                if len(ins.a) == 1: return [self.edge(fr, b, ins.a[0], st)]
                c = self.operand(fr, ("int", 1), ins.a[0])
                if T.isc(c): return [self.edge(fr, b, ins.a[1] if c.x else ins.a[2], st)]
                s1 = st; s2 = st.fork()
                pc = st.pc
                s1.pc = T.and_(pc, c); s2.pc = T.and_(pc, T.not_(c))
                return [self.edge(fr, b, ins.a[1], s1), self.edge(fr, b, ins.a[2], s2)]
            elif op == "switch":
                v = self.operand(fr, ins.ty, ins.a[0]); out = []
                rest = T.TRUE; byt = {}
                for cv, lab in ins.a[2]:
                    e = T.eq(v, T.const(cv, v.w))
                    byt[lab] = T.or_(byt.get(lab, T.FALSE), e)
                    rest = T.and_(rest, T.not_(e))
                byt[ins.a[1]] = T.or_(byt.get(ins.a[1], T.FALSE), rest)
                for lab, c in byt.items():
                    s2 = st.fork(); s2.pc = T.and_(st.pc, c)
                    if s2.pc is not T.FALSE: out.append(self.edge(fr, b, lab, s2))
                return out
            elif op == "unreachable":
                self.oblige(st, "unreachable not reached", T.FALSE, "ub"); return []
            elif op == "fence": pass
            else: raise Unsupported("instruction " + ins.txt[:80])
        raise Unsupported("block without terminator")

    def pure(self, fr, st, ins):
        op = ins.op; a = ins.a
        if op in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor", "fadd", "fsub", "fmul", "fdiv", "frem"):
            x = self.operand(fr, ins.ty, a[0]); y = self.operand(fr, ins.ty, a[1])
            return self.binop(fr, st, op, ins, x, y)
        if op == "fneg":
            x = self.operand(fr, ins.ty, a[0])
            if isinstance(x, tuple): return tuple(T.fp("fp.neg", [v], v.w) for v in x)
            return T.fp("fp.neg", [x], x.w)
        if op == "icmp":
            x = self.operand(fr, ins.ty, a[1]); y = self.operand(fr, ins.ty, a[2])
            if isinstance(x, tuple): return tuple(self.icmp(st, a[0], u, v) for u, v in zip(x, y))
            return self.icmp(st, a[0], x, y)
        if op == "fcmp":
            x = self.operand(fr, ins.ty, a[1]); y = self.operand(fr, ins.ty, a[2])
            if isinstance(x, tuple): return tuple(self.fcmp(a[0], u, v) for u, v in zip(x, y))
            return self.fcmp(a[0], x, y)
        if op == "select":
            c = self.operand(fr, a[0], a[1]); x = self.operand(fr, ins.ty, a[2]); y = self.operand(fr, ins.ty, a[3])
            if isinstance(c, tuple): return tuple(ite_val(k, u, v) for k, u, v in zip(c, x, y))
            return ite_val(c, x, y)
        if op in llir.CE_CAST or op in ("fptrunc", "fpext", "fptoui", "fptosi", "uitofp", "sitofp"):
            v = self.operand(fr, a[0], a[1])
            if self.ub and op in ("fptoui", "fptosi") and isinstance(v, T.T):
                self.fpto_check(st, op, v, fr.mod.resolve(ins.ty)[1])
            return self.cast(op, a[0], v, ins.ty, fr.mod)
        if op == "getelementptr":
            ops = a[0]
            p = self.operand(fr, ops[0][0], ops[0][1])
            return self.gep(fr, ins.ty, p, [(t, self.operand(fr, t, o)) for t, o in ops[1:]])
        if op == "freeze": return self.operand(fr, ins.ty, a[0])
        if op == "extractvalue":
            v = self.operand(fr, ins.ty, a[0])
            for i in a[1]: v = v[i]
            return v
        if op == "insertvalue":
            v = self.operand(fr, ins.ty, a[0]); x = self.operand(fr, a[1], a[2])
            def ins_(v, ix):
                if not ix: return x
                return tuple(ins_(u, ix[1:]) if i == ix[0] else u for i, u in enumerate(v))
            return ins_(v, a[3])
        if op == "extractelement":
            v = self.operand(fr, ins.ty, a[0]); i = self.operand(fr, ("int", 64), a[1])
            if T.isc(i): return v[i.x]
            r = v[-1]
            for k in range(len(v) - 2, -1, -1): r = ite_val(T.eq(i, T.const(k, i.w)), v[k], r)
            return r
        if op == "insertelement":
            v = self.operand(fr, ins.ty, a[0]); x = self.operand(fr, a[1], a[2]); i = self.operand(fr, ("int", 64), a[4])
            if not T.isc(i): return tuple(ite_val(T.eq(i, T.const(k, i.w)), x, u) for k, u in enumerate(v))
            return tuple(x if k == i.x else u for k, u in enumerate(v))
        if op == "shufflevector":
            v1 = self.operand(fr, ins.ty, a[0]); v2 = self.operand(fr, ins.ty, a[1]); m = self.operand(fr, a[2], a[3])
            vv = tuple(v1) + tuple(v2)
            return tuple(vv[i.x] if T.isc(i) and i.x < len(vv) else vv[0] for i in m)
        raise Unsupported(op)

    def fpto_check(self, st, op, v, w):
        fw = v.w
        if op == "fptoui": lo, hi = -1.0, float(2 ** w); ok = T.and_(T.fp("fp.lt", [T.fconst(lo, fw), v], 0), T.fp("fp.lt", [v, T.fconst(hi, fw)], 0))
        else:
            hi = float(2 ** (w - 1))
            lo = -hi - 1.0
            if fw == 32 and w >= 25 or fw == 64 and w >= 54:
                ok = T.and_(T.fp("fp.le", [T.fconst(-hi, fw), v], 0), T.fp("fp.lt", [v, T.fconst(hi, fw)], 0))
            else: ok = T.and_(T.fp("fp.lt", [T.fconst(lo, fw), v], 0), T.fp("fp.lt", [v, T.fconst(hi, fw)], 0))
        self.oblige(st, "float-to-int conversion in range", ok, "ub")

    def binop(self, fr, st, op, ins, x, y):
        if isinstance(x, tuple):
            return tuple(self.binop(fr, st, op, ins, u, v) for u, v in zip(x, y))
        if isinstance(x, Ptr) or isinstance(y, Ptr): raise Unsupported("arith on pointer")
        if op in ("fadd", "fsub", "fmul", "fdiv", "frem"): return T.fp("fp." + op[1:], [x, y], x.w)
        if x.w == 0:
            if op in ("and", "mul"): return T.and_(x, y)
            if op == "or": return T.or_(x, y)
            if op in ("xor", "add", "sub"): return T.not_(T.eq(x, y))
            raise Unsupported("i1 " + op)
        if op in ("udiv", "urem", "sdiv", "srem") and self.ub:
            self.oblige(st, "no division by zero", T.ne(y, T.const(0, y.w)), "ub")
        if op in ("shl", "lshr", "ashr") and self.ub and not T.isc(y):
            self.oblige(st, "shift amount in range", T.ult(y, T.const(y.w, y.w)), "ub")
        if op == "or" and "disjoint" in ins.a[2]: return T.add(x, y)
        if op in ("add", "sub", "mul") and self.opts.get("nsw") and "nsw" in ins.a[2]:
            self.nsw_check(st, op, x, y)
        return {"add": T.add, "sub": T.sub, "mul": T.mul, "udiv": T.udiv, "sdiv": T.sdiv, "urem": T.urem, "srem": T.srem,
                "shl": T.shl, "lshr": T.lshr, "ashr": T.ashr, "and": T.bvand, "or": T.bvor, "xor": T.bvxor}[op](x, y)

    def nsw_check(self, st, op, x, y):
        w = x.w
        a, b = T.sext(x, 2 * w), T.sext(y, 2 * w)
        r = {"add": T.add, "sub": T.sub, "mul": T.mul}[op](a, b)
        z = T.sext({"add": T.add, "sub": T.sub, "mul": T.mul}[op](x, y), 2 * w)
        self.oblige(st, "no signed overflow", T.eq(r, z), "ub")

    # ---- calls
    def call(self, fr, st, ins):
        callee, args = ins.a[0], ins.a[1]
        if callee[0] == "g":
            name = callee[1][1:]
        else:
            fp = self.operand(fr, ("ptr",), callee)
            if isinstance(fp, Ptr) and len(fp.cases) == 1 and fp.cases[0][1] is not None and fp.cases[0][1].name.startswith("fn:"):
                name = fp.cases[0][1].name[3:]
            else:
                h = self.opts.get("indirect")
                vals = [self.operand(fr, t, o) for t, o, at in args if t != ("metadata",)]
                if h is None: raise Unsupported("indirect call " + ins.txt[:100])
                return h(self, fr, st, ins, fp, vals)
        if name.startswith("llvm.lifetime") or name.startswith("llvm.dbg") or name.startswith("llvm.assume") or name.startswith("llvm.experimental.noalias"): return None
        vals = [self.operand(fr, t, o) if t != ("metadata",) else None for t, o, at in args]
        if name.startswith("llvm."): return self.intrinsic(fr, st, name, ins, vals, args)
        dem = self.prog.dem.get(name, name)
        if any(dem == e for e in self.stack[:1]) and False: pass
        for rx, h in self.contracts:
            if rx.search(dem):
                self.used_contracts.setdefault(dem, 0); self.used_contracts[dem] += 1
                return h(self, fr, st, ins, dem, vals)
        f = self.prog.find(fr.mod, name)
        if f is not None:
            self.inlined.add(dem)
            return self.inline(fr, st, f, vals, args)
        self.unknown_calls.add(dem)
        raise Unsupported("call to uncontracted external function " + dem)

    def inline(self, fr, st, f, vals, args):
        self.depth += 1
        if self.depth > 24: raise Unsupported("call depth")
        try:
            nf = Frame(f, self.prog.cfg(f))
            ret = self.run_function(nf, st, vals)
        finally: self.depth -= 1
        if ret is None:
            st.pc = T.FALSE; return None
        s2, v = ret
        st.pc = s2.pc; st.mem = s2.mem; st.trace = s2.trace; st.assume = s2.assume; st.ghost = s2.ghost
        return v

    def run_function(self, fr, st, vals):
        f = fr.f
        for (t, n, at), v in zip(f.params, vals):
            if "byval" in at:
                raise Unsupported("byval")
            fr.env[n] = v
        entry = f.order[0]
        body = set(fr.cfg.rpo)
        self.run_region(fr, entry, body, [(None, entry, st.fork(), {})])
        m = self.merge([(s, p) for s, p in fr.rets])
        if m is None: return None
        return m[0], m[1]["ret"]

    def intrinsic(self, fr, st, name, ins, v, args):
        n = name[5:]
        if n.startswith("memcpy") or n.startswith("memmove"):
            return self.memcpy(fr, st, v[0], v[1], v[2])
        if n.startswith("memset"): return self.memset(fr, st, v[0], v[1], v[2])
        def lift(fn):
            if isinstance(v[0], tuple): return tuple(fn(*xs) for xs in zip(*[x for x in v if isinstance(x, tuple)]))
            return fn(*v)
        if n.startswith("round."): return lift(lambda x: T.fp("fp.round", [x], x.w, "RNA"))
        if n.startswith("floor."): return lift(lambda x: T.fp("fp.round", [x], x.w, "RTN"))
        if n.startswith("ceil."): return lift(lambda x: T.fp("fp.round", [x], x.w, "RTP"))
        if n.startswith("trunc."): return lift(lambda x: T.fp("fp.round", [x], x.w, "RTZ"))
        if n.startswith("rint.") or n.startswith("nearbyint.") or n.startswith("roundeven."): return lift(lambda x: T.fp("fp.round", [x], x.w, "RNE"))
        if n.startswith("fabs."): return lift(lambda x: T.fp("fp.abs", [x], x.w))
        if n.startswith("sqrt."): return lift(lambda x: T.fp("fp.sqrt", [x], x.w))
        if n.startswith("fmuladd."): return lift(lambda x, y, z: T.fp("fp.add", [T.fp("fp.mul", [x, y], x.w), z], x.w))
        if n.startswith("umax."): return lift(lambda x, y: T.ite(T.ult(x, y), y, x))
        if n.startswith("umin."): return lift(lambda x, y: T.ite(T.ult(x, y), x, y))
        if n.startswith("smax."): return lift(lambda x, y: T.ite(T.slt(x, y), y, x))
        if n.startswith("smin."): return lift(lambda x, y: T.ite(T.slt(x, y), x, y))
        if n.startswith("abs."): return lift(lambda x, *r: T.ite(T.slt(x, T.const(0, x.w)), T.neg(x), x)) if not isinstance(v[0], tuple) else tuple(T.ite(T.slt(x, T.const(0, x.w)), T.neg(x), x) for x in v[0])
        if n.startswith("fshl."):
            a, b, c = v
            if T.isc(c):
                k = c.x % a.w
                return a if k == 0 else T.concat(T.extract(a, a.w - 1 - k, 0), T.extract(b, b.w - 1, b.w - k))
        if n.startswith("bswap."):
            x = v[0]; r = T.extract(x, 7, 0)
            for i in range(1, x.w // 8): r = T.concat(r, T.extract(x, 8 * i + 7, 8 * i))
            return r
        if n.startswith("trap"):
            self.oblige(st, "trap not reached", T.FALSE, "ub"); st.pc = T.FALSE; return None
        if n.startswith("ctlz."):
            x = v[0]; r = T.const(x.w, x.w)
            for i in range(x.w): r = T.ite(T.uge(x, T.const(1 << i, x.w)), T.const(x.w - 1 - i, x.w), r)
            return r
        if n.startswith("usub.sat"): return T.ite(T.ult(v[0], v[1]), T.const(0, v[0].w), T.sub(v[0], v[1]))
        if n.startswith("umul.with.overflow"):
            w = v[0].w; p = T.mul(T.zext(v[0], 2 * w), T.zext(v[1], 2 * w))
            return (T.extract(p, w - 1, 0), T.ne(T.extract(p, 2 * w - 1, w), T.const(0, w)))
        if n.startswith("expect"): return v[0]
        if n.startswith("is.constant"): return T.FALSE
        if n in ("stacksave.p0", "stacksave"): return NULL
        if n.startswith("stackrestore"): return None
        h = self.opts.get("intrinsic")
        if h:
            r = h(self, fr, st, n, v)
            if r is not NotImplemented: return r
        raise Unsupported("intrinsic " + name)

    def memcpy(self, fr, st, d, s, n):
        if not T.isc(n): raise Unsupported("memcpy of symbolic length")
        if n.x == 0: return None
        sb, so = s.single()
        size = n.x
        r = st.mem.get(sb.name)
        self.check_bounds(st, sb, so, size, "memcpy source")
        # copy by the cells known in source, else by 8/4/1 byte words
        pieces = []
        cells = None
        if sb.name.startswith("ro:") and T.isc(so):
            cells = {o: x for o, x in (self.ro_init(sb.name, so, size, None, None) or {}).items()}
        elif r is not None and r.log is None: cells = r.cells
        o = 0
        while o < size:
            c = None
            if cells is not None and T.isc(so): c = cells.get(so.x + o)
            if c is not None and o + c[0] <= size:
                pieces.append((o, c[0], c[1])); o += c[0]; continue
            step = 1
            ov = False
            if cells is not None and T.isc(so):
                for k in (8, 4, 2, 1):
                    if o + k <= size and (so.x + o) % k == 0 and not any(a < so.x + o + k and so.x + o < a + cs for a, (cs, _) in cells.items()): step = k; break
            else:
                for k in (4, 2, 1):
                    if o + k <= size: step = k; break
            lay = self.opts.get("layout", {}).get(sb.name)
            if lay and T.isc(so) and so.x + o in lay and o + lay[so.x + o] <= size: step = lay[so.x + o]
            ty = ("int", 8 * step)
            pieces.append((o, step, self.read(st, sb, T.add(so, C64(o)), step, ty))); o += step
        for c, b, off in d.cases:
            self.check_bounds(st, b, off, size, "memcpy dest")
            for po, ps, pv in pieces: self.write(st, b, T.add(off, C64(po)), ps, pv, fr.mod, c)
        return None

    def memset(self, fr, st, d, v, n):
        if not T.isc(n): raise Unsupported("memset of symbolic length")
        for c, b, off in d.cases:
            self.check_bounds(st, b, off, n.x, "memset")
            o = 0
            while o < n.x:
                k = 1
                for q in (8, 4, 2, 1):
                    if o + q <= n.x and (not T.isc(off) or (off.x + o) % q == 0): k = q; break
                # keep 4-byte granularity so that typed reads hit
                if k == 8: k = 4
                x = v
                for _ in range(k - 1): x = T.concat(x, v) if False else T.concat(v, x)
                self.write(st, b, T.add(off, C64(o)), k, x, fr.mod, c); o += k
        return None

PURE = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor", "fadd", "fsub", "fmul",
        "fdiv", "frem", "fneg", "icmp", "fcmp", "select", "trunc", "zext", "sext", "fptrunc", "fpext", "fptoui", "fptosi",
        "uitofp", "sitofp", "ptrtoint", "inttoptr", "bitcast", "addrspacecast", "getelementptr", "freeze", "extractvalue", "insertvalue",
        "extractelement", "insertelement", "shufflevector"}
