"""Translation of terms to SMT and the discharge strategy.

mode 'abs'  : mul(var,var)/udiv/urem/sdiv/srem and fp.* operations are uninterpreted functions.  UNSAT of
              the negated goal here is a proof of the exact statement (any interpretation satisfies it).
mode 'int'  : bit-vector non-linear operations exact, fp.* uninterpreted.
mode 'exact': everything exact (QF_BVFP + arrays-as-UF).  A model found here is a counterexample."""
import math, subprocess, tempfile, os, time
import z3
from . import term as T, ival

_NL = {"mul", "udiv", "urem", "sdiv", "srem", "shl", "lshr", "ashr"}
_RM = {"RNE": z3.RNE, "RNA": z3.RNA, "RTN": z3.RTN, "RTP": z3.RTP, "RTZ": z3.RTZ}

class Tr:
    def __init__(self, mode):
        self.mode = mode; self.c = {}; self.f = {}; self.funcs = {}; self.side = []

    def sort(self, w): return z3.BoolSort() if w == 0 else z3.BitVecSort(w)

    def func(self, name, args, w):
        key = (name, tuple(a.w for a in args), w)
        fn = self.funcs.get(key)
        if fn is None:
            fn = z3.Function("%s.%s" % (name, "_".join(str(a.w) for a in args) + "_%d" % w) if True else name,
                             *([self.sort(a.w) for a in args] + [self.sort(w)]))
            self.funcs[key] = fn
        return fn

    def fsort(self, w): return z3.Float32() if w == 32 else z3.Float64()

    def tofp(self, t):
        r = self.f.get(t.id)
        if r is not None: return r
        if t.op.startswith("fp.") and t.w in (32, 64) and t.op not in ("fp.toui", "fp.tosi"):
            a = t.args
            if t.op == "fp.add": r = z3.fpAdd(z3.RNE(), self.tofp(a[0]), self.tofp(a[1]))
            elif t.op == "fp.sub": r = z3.fpSub(z3.RNE(), self.tofp(a[0]), self.tofp(a[1]))
            elif t.op == "fp.mul": r = z3.fpMul(z3.RNE(), self.tofp(a[0]), self.tofp(a[1]))
            elif t.op == "fp.div": r = z3.fpDiv(z3.RNE(), self.tofp(a[0]), self.tofp(a[1]))
            elif t.op == "fp.sqrt": r = z3.fpSqrt(z3.RNE(), self.tofp(a[0]))
            elif t.op == "fp.round": r = z3.fpRoundToIntegral(_RM[t.x](), self.tofp(a[0]))
            elif t.op == "fp.fromui": r = z3.fpUnsignedToFP(z3.RNE(), self.bv(a[0]), self.fsort(t.w))
            elif t.op == "fp.fromsi": r = z3.fpSignedToFP(z3.RNE(), self.bv(a[0]), self.fsort(t.w))
            elif t.op == "fp.cvt": r = z3.fpFPToFP(z3.RNE(), self.tofp(a[0]), self.fsort(t.w))
            else: r = None
        elif t.op == "ite":
            r = z3.If(self.bv(t.args[0]), self.tofp(t.args[1]), self.tofp(t.args[2]))
        elif t.op == "const":
            r = z3.simplify(z3.fpBVToFP(z3.BitVecVal(t.x, t.w), self.fsort(t.w)))
        if r is None:
            r = z3.fpBVToFP(self.bv(t), self.fsort(t.w))
        self.f[t.id] = r
        return r

    def bv(self, t):
        r = self.c.get(t.id)
        if r is not None: return r
        # iterative post-order to bound the recursion
        st = [t]
        while st:
            u = st[-1]
            if u.id in self.c: st.pop(); continue
            pend = [a for a in u.args if a.id not in self.c]
            if pend: st.extend(pend); continue
            self.c[u.id] = self._one(u)
            st.pop()
        return self.c[t.id]

    def _one(self, t):
        op = t.op; A = [self.c[a.id] for a in t.args]; w = t.w
        if op == "const": return z3.BoolVal(bool(t.x)) if w == 0 else z3.BitVecVal(t.x, w)
        if op == "var": return z3.Bool(t.x) if w == 0 else z3.BitVec(t.x, w)
        if op == "not": return z3.Not(A[0])
        if op == "and": return z3.And(*A)
        if op == "or": return z3.Or(*A)
        if op == "eq": return A[0] == A[1]
        if op == "ite": return z3.If(A[0], A[1], A[2])
        if op == "ult": return z3.ULT(A[0], A[1])
        if op == "slt": return A[0] < A[1]
        if op == "lin":
            c, ks = t.x
            r = None
            for a, k in zip(A, ks):
                if k == 1: p, sg = a, 1
                elif k == (1 << w) - 1: p, sg = a, -1
                else: p, sg = a * z3.BitVecVal(k, w), 1
                if r is None: r = p if sg == 1 else -p
                else: r = r + p if sg == 1 else r - p
            return r + z3.BitVecVal(c, w) if c else r
        if op == "concat": return z3.Concat(*A)
        if op == "extract": return z3.Extract(t.x[0], t.x[1], A[0])
        if op == "zext": return z3.ZeroExt(w - t.args[0].w, A[0])
        if op == "sext": return z3.SignExt(w - t.args[0].w, A[0])
        if op == "bvand": return A[0] & A[1]
        if op == "bvor": return A[0] | A[1]
        if op == "bvxor": return A[0] ^ A[1]
        if op == "uf": return self.func(t.x, t.args, w)(*A) if A else self.func0(t)
        if op in _NL:
            if self.mode == "abs" and op in ("mul", "udiv", "urem", "sdiv", "srem"):
                return self.func("nl_" + op, t.args, w)(*A)
            return {"mul": lambda x, y: x * y, "udiv": z3.UDiv, "urem": z3.URem,
                    "sdiv": lambda x, y: x / y, "srem": z3.SRem, "shl": lambda x, y: x << y,
                    "lshr": z3.LShR, "ashr": lambda x, y: x >> y}[op](*A)
        if op.startswith("fp."):
            if self.mode == "cmp":
                # comparisons exact; arithmetic uninterpreted, with the axiom that rounding and conversion keep (non-)NaN
                ops = ("fp.lt", "fp.le", "fp.eq", "fp.isnan")
                if op in ops and t.args[0].w in (32, 64):
                    fa = [z3.fpBVToFP(self.c[a.id], self.fsort(a.w)) for a in t.args]
                    return {"fp.lt": z3.fpLT, "fp.le": z3.fpLEQ, "fp.eq": z3.fpEQ}[op](*fa) if len(fa) == 2 else z3.fpIsNaN(fa[0])
                nm = op.replace(".", "_") + ("_" + str(t.x) if t.x else "")
                r = self.func(nm, t.args, w)(*A)
                if op in ("fp.round", "fp.cvt") and w in (32, 64):
                    self.side.append(z3.fpIsNaN(z3.fpBVToFP(r, self.fsort(w))) == z3.fpIsNaN(z3.fpBVToFP(A[0], self.fsort(t.args[0].w))))
                return r
            if self.mode != "exact":
                nm = op.replace(".", "_") + ("_" + str(t.x) if t.x else "")
                return self.func(nm, t.args, w)(*A)
            a = t.args
            if op == "fp.lt": return z3.fpLT(self.tofp(a[0]), self.tofp(a[1]))
            if op == "fp.le": return z3.fpLEQ(self.tofp(a[0]), self.tofp(a[1]))
            if op == "fp.eq": return z3.fpEQ(self.tofp(a[0]), self.tofp(a[1]))
            if op == "fp.isnan": return z3.fpIsNaN(self.tofp(a[0]))
            if op == "fp.toui": return z3.fpToUBV(z3.RTZ(), self.tofp(a[0]), z3.BitVecSort(w))
            if op == "fp.tosi": return z3.fpToSBV(z3.RTZ(), self.tofp(a[0]), z3.BitVecSort(w))
            if op == "fp.tohalf": return z3.fpToIEEEBV(z3.fpFPToFP(_RM[t.x](), self.tofp(a[0]), z3.FPSort(5, 11)))
            if op == "fp.rem":
                return self.func("fp_rem", t.args, w)(*A)
            return z3.fpToIEEEBV(self.tofp(t))
        raise Exception("no SMT translation for " + op)

    def func0(self, t):
        return z3.Bool(t.x) if t.w == 0 else z3.BitVec(t.x, t.w)


_TR = {}
def translator(mode):
    """the translation has no side conditions outside mode 'cmp': terms are interned, so translated once per process"""
    if mode == "cmp": return Tr(mode)
    if mode not in _TR or len(_TR[mode].c) > 400000: _TR[mode] = Tr(mode)
    return _TR[mode]

class TrI:
    """Integer (LIA) translation: every bit-vector term is an integer in [0,2^w); linear terms are sums reduced
    modulo 2^w (a fresh quotient only where the interval says they may wrap); non-linear and bit operations are
    opaque integers within their interval (functions of their operands where they have operands of the same kind).
    An UNSAT answer is therefore a proof of the exact statement."""
    def __init__(self):
        self.c = {}; self.side = []; self.n = 0; self.rg = {}
    def fresh(self, t):
        self.n += 1
        v = z3.Int("i%d" % t.id)
        lo, hi = self.rng(t)
        self.side.append(v >= lo); self.side.append(v <= hi)
        return v
    def rng(self, t):
        r = self.rg.get(t.id)
        if r is None:
            r = self.rg[t.id] = self._rng(t)
        return r
    def _rng(self, t):
        w = t.w; m = (1 << w) - 1
        f = T.FACTS.get(t.id)
        top = m if f is None else min(m, f)
        op = t.op
        if op == "const": return (t.x, t.x)
        lo, hi = 0, top
        if op == "zext": lo, hi = self.rng(t.args[0])
        elif op == "ite":
            a, b = self.rng(t.args[1]), self.rng(t.args[2]); lo, hi = min(a[0], b[0]), max(a[1], b[1])
        elif op == "lin":
            l, h = self.lin_rng(t)
            if 0 <= l and h <= m: lo, hi = l, h
        elif op == "extract":
            a = self.rng(t.args[0])
            if t.x[1] == 0 and a[1] <= m: lo, hi = a
            elif t.x[0] == t.args[0].w - 1: lo, hi = a[0] >> t.x[1], a[1] >> t.x[1]
        elif op == "udiv":
            a, b = self.rng(t.args[0]), self.rng(t.args[1])
            if b[0] > 0: hi = a[1] // b[0]
        elif op == "urem":
            a, b = self.rng(t.args[0]), self.rng(t.args[1])
            if b[0] > 0: hi = min(a[1], b[1] - 1)
            elif T.isc(t.args[1]): pass
        elif op == "mul":
            a, b = self.rng(t.args[0]), self.rng(t.args[1])
            if a[1] * b[1] <= m: lo, hi = a[0] * b[0], a[1] * b[1]
        elif op in ("bvand",): hi = min(self.rng(a)[1] for a in t.args)
        hi = min(hi, top); lo = min(lo, hi)
        z = T.known_zero_high(t) if w else 0
        hi = min(hi, (1 << (w - z)) - 1)
        return (lo, hi)
    def lin_rng(self, t):
        c, ks = t.x; w = t.w
        c = c if c < (1 << (w - 1)) else c - (1 << w)
        l = h = c
        for a, k in zip(t.args, ks):
            k = k if k < (1 << (w - 1)) else k - (1 << w)
            x, y = self.rng(a)
            l += min(k * x, k * y); h += max(k * x, k * y)
        return l, h
    def tr(self, t):
        st = [t]
        while st:
            u = st[-1]
            if u.id in self.c: st.pop(); continue
            opaque = u.w and u.op not in ("lin", "zext", "ite", "extract", "udiv", "urem", "concat", "sext")
            p = [] if opaque else [a for a in u.args if a.id not in self.c]
            if p: st.extend(p); continue
            self.c[u.id] = self.one(u); st.pop()
        return self.c[t.id]
    def sgn(self, t):
        v = self.c[t.id]
        if self.rng(t)[1] < (1 << (t.w - 1)): return v
        return z3.If(v >= (1 << (t.w - 1)), v - (1 << t.w), v)
    def one(self, t):
        op = t.op; w = t.w
        g = lambda i: self.c[t.args[i].id]
        if op == "const": return z3.BoolVal(bool(t.x)) if w == 0 else z3.IntVal(t.x)
        if w == 0:
            if op == "var": return z3.Bool(t.x)
            A = [self.c[a.id] for a in t.args]
            if op == "not": return z3.Not(A[0])
            if op == "and": return z3.And(*A)
            if op == "or": return z3.Or(*A)
            if op == "eq": return A[0] == A[1]
            if op == "ite": return z3.If(*A)
            if op == "ult": return A[0] < A[1]
            if op == "slt": return self.sgn(t.args[0]) < self.sgn(t.args[1])
            return z3.Bool("b%d" % t.id)
        if op == "zext": return g(0)
        if op == "ite": return z3.If(g(0), g(1), g(2))
        m = 1 << w
        if op == "lin":
            c, ks = t.x
            c = c if c < (m >> 1) else c - m
            s = z3.IntVal(c)
            for a, k in zip(t.args, ks):
                k = k if k < (m >> 1) else k - m
                s = s + (self.c[a.id] if k == 1 else k * self.c[a.id])
            l, h = self.lin_rng(t)
            if 0 <= l and h < m: return s
            q = z3.Int("q%d" % t.id)
            v = s - m * q
            self.side += [v >= 0, v < m, q >= l // m, q <= h // m]
            return v
        if op == "concat":
            return g(0) * (1 << t.args[1].w) + g(1)
        if op == "extract":
            hi_, lo_ = t.x; x = g(0); a = t.args[0]
            r = self.rng(a)
            if lo_ == 0 and r[1] < m: return x
            v = self.fresh(t)
            # x = top*2^(hi+1) + v*2^lo + low
            q = z3.Int("q%d" % t.id); self.side += [q >= 0, q <= r[1] >> (hi_ + 1)]
            e = q * (1 << (hi_ + 1)) + v * (1 << lo_)
            if lo_:
                l = z3.Int("r%d" % t.id); self.side += [l >= 0, l < (1 << lo_)]; e = e + l
            self.side.append(x == e)
            return v
        if op == "sext":
            a = t.args[0]; x = g(0)
            if self.rng(a)[1] < (1 << (a.w - 1)): return x
            return z3.If(x >= (1 << (a.w - 1)), x + (m - (1 << a.w)), x)
        if op in ("udiv", "urem"):
            if T.isc(t.args[1]) and t.args[1].x > 0:
                d = t.args[1].x
                q = z3.Int("dq%d_%d" % (t.args[0].id, d)); r = z3.Int("dr%d_%d" % (t.args[0].id, d))
                self.side += [g(0) == d * q + r, r >= 0, r < d, q >= 0]
                return q if op == "udiv" else r
            v = self.fresh(t)
            if op == "urem": self.side.append(z3.Implies(g(1) > 0, v < g(1)))
            self.side.append(v <= g(0)) if op == "urem" else self.side.append(z3.Implies(g(1) > 0, v <= g(0)))
            return v
        return self.fresh(t)

def prove_lia(neg, timeout):
    tr = TrI(); e = tr.tr(neg)
    s = z3.Solver(); s.set("timeout", int(timeout * 1000))
    s.add(*tr.side); s.add(e)
    return s.check() == z3.unsat

class Result:
    def __init__(self, status, mode=None, backend=None, secs=0.0, model=None):
        self.status = status; self.mode = mode; self.backend = backend; self.secs = secs; self.model = model

def _has(ts, pred):
    seen = set(); st = list(ts)
    while st:
        u = st.pop()
        if u.id in seen: continue
        seen.add(u.id)
        if pred(u): return True
        st.extend(u.args)
    return False

CVC5 = "/usr/bin/cvc5"

def cvc5_check(smt2, timeout):
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write("(set-logic ALL)\n" + smt2)
        fn = f.name
    try:
        r = subprocess.run([CVC5, "--tlimit=%d" % int(timeout * 1000), fn], capture_output=True, text=True,
                           timeout=timeout + 5)
        return r.stdout.strip().split("\n")[0]
    except subprocess.TimeoutExpired:
        return "unknown"
    finally:
        os.unlink(fn)

def stronger(goal):
    """a goal that implies this one: equal arguments give equal function values; equal quotients equal multiples"""
    if goal.op == "and":
        a = [stronger(g) for g in goal.args]
        return T.and_(*a)
    if goal.op == "or":
        a = [stronger(g) for g in goal.args]
        return T.or_(*a)
    if goal.op != "eq": return goal
    a, b = goal.args
    if a.op == "uf" and b.op == "uf" and a.x == b.x and len(a.args) == len(b.args): return T.and_(*[stronger(T.eq(x, y)) for x, y in zip(a.args, b.args)])
    if a.w > 8:
        ca, da = T.lin_parts(a); cb, db = T.lin_parts(b); g = 0
        for k in [ca, cb, *da.values(), *db.values()]: g = math.gcd(g, T.sval(T.const(k, a.w)))
        if g > 1:
            f = lambda c, d: T.add(T.const(T.sval(T.const(c, a.w)) // g, a.w), T.add(*[T.const(0, a.w)] * 2) if not d else _sum([T.mulc(x, T.sval(T.const(k, a.w)) // g) for x, k in d.items()]))
            return T.eq(f(ca, da), f(cb, db))
    return goal
def _sum(l):
    r = l[0]
    for x in l[1:]: r = T.add(r, x)
    return r
def prove(hyps, goal, inputs=(), timeouts=(4, 10, 30), use_cvc5=True):
    """hyps: list of terms; goal: term.  inputs: terms whose values are wanted from a model."""
    t0 = time.time()
    g2 = stronger(goal)
    if g2 is not goal:
        if g2 is T.TRUE: return Result("proved", "congruence", "simplifier", time.time() - t0)
        r = prove(hyps, g2, (), (2, 3, 3), False)
        if r.status == "proved": return r
    h = T.and_(*hyps)
    neg = T.and_(h, T.not_(goal))
    if neg is T.FALSE: return Result("proved", "simplify", "simplifier", time.time() - t0)
    nl = _has([neg], lambda u: u.op in ("mul", "udiv", "urem", "sdiv", "srem"))
    fpx = _has([neg], lambda u: u.op.startswith("fp."))
    modes = ["abs"] + (["cmp"] if fpx else []) + (["int"] if nl else []) + (["exact"] if fpx else [])
    if not nl and not fpx: modes = ["exact"]
    if not fpx and lia_ok(goal):
        try:
            if prove_lia(neg, timeouts[0] / 2): return Result("proved", "lia", "z3-5.3.2", time.time() - t0)
        except z3.Z3Exception: pass
    last = None
    for mode in modes:
        tr = translator(mode)
        s = z3.Solver()
        tmo = timeouts[{"abs": 0, "cmp": 0, "int": 1, "exact": 2}[mode]]
        s.set("timeout", int(tmo * 1000))
        s.add(tr.bv(neg))
        if tr.side: s.add(*tr.side)
        r = s.check()
        if r == z3.unsat: return Result("proved", mode, "z3-5.3.2", time.time() - t0)
        final = mode == modes[-1]
        if r == z3.sat and final:
            m = s.model()
            vals = {}
            for t in inputs:
                try: vals[t.x if t.op == "var" else T.show(t)] = m.eval(tr.bv(t), model_completion=True).as_long()
                except Exception:
                    vals[t.x if t.op == "var" else T.show(t)] = str(m.eval(tr.bv(t), model_completion=True))
            return Result("refuted", mode, "z3-5.3.2", time.time() - t0, vals)
        if r == z3.unknown and use_cvc5 and mode not in ("abs", "cmp"):
            try:
                st = cvc5_check(s.to_smt2(), tmo)
            except Exception:
                st = "unknown"
            if st == "unsat": return Result("proved", mode, "cvc5-1.1.2", time.time() - t0)
        last = r
    return Result("undecided", modes[-1], "z3-5.3.2", time.time() - t0)

def lia_ok(t):
    """the goal has arithmetic (bound / equality of sums), not only bit operations"""
    return _has([t], lambda u: u.op in ("ult", "slt", "lin", "udiv", "urem"))

_gen_cache = {}
def leaves(t):
    out = {}; seen = set(); st = [t]
    while st:
        u = st.pop()
        if u.id in seen: continue
        seen.add(u.id)
        if u.op in ("uf", "var"): out[u.id] = u; continue
        st.extend(u.args)
    return out

def _components(goal):
    """maximal ite-terms of integer type that depend on floating point through a single leaf"""
    lv = {}
    def lf(t):
        st = [t]
        while st:
            u = st[-1]
            if u.id in lv: st.pop(); continue
            if u.op in ("uf", "var"): lv[u.id] = (frozenset([u.id]), False); st.pop(); continue
            p = [a for a in u.args if a.id not in lv]
            if p: st.extend(p); continue
            s = frozenset(); f = u.op.startswith("fp.")
            for a in u.args:
                s2, f2 = lv[a.id]; s = s | s2 if len(s) <= 2 else s; f = f or f2
            lv[u.id] = (s, f); st.pop()
        return lv[t.id]
    out = []; seen = set(); st = [goal]
    while st:
        u = st.pop()
        if u.id in seen or u.op in ("uf", "var"): continue
        seen.add(u.id)
        s, f = lf(u)
        if not f: continue
        if u.w and u.op == "ite" and len(s) == 1: out.append(u); continue
        st.extend(u.args)
    return out

def _const_leaves(t):
    out = []; st = [t]
    while st:
        u = st.pop()
        if u.op == "const": out.append(u.x)
        elif u.op == "ite": st += [u.args[1], u.args[2]]
        elif u.op in ("zext", "extract"): st.append(u.args[0])
    return out

def prove_components(hyps, goal):
    comps = _components(goal)
    if not comps: return None
    m = {}; hs = []
    for i, u in enumerate(comps):
        ks = _const_leaves(u)
        v = T.var("comp%d_%d" % (u.id, u.w), u.w); m[u] = v
        if ks:
            b = T.ule(u, T.const(max(ks), u.w))
            r = prove_general(hyps, b, nocomp=True, light=True)
            if r.status == "proved": hs.append(T.ule(v, T.const(max(ks), u.w)))
    g = T.subst(goal, m)
    if _has([g], lambda u: u.op.startswith("fp.")): return None
    return prove(hs, g, (), timeouts=(5, 5, 10), use_cvc5=False)

_ARITH = ("fp.add", "fp.sub", "fp.mul", "fp.div", "fp.sqrt", "fp.cvt", "fp.fromui", "fp.fromsi", "fp.round")
def _comparands(goal):
    """computed floating-point values that the goal compares with something"""
    out = {}; seen = set(); st = [goal]
    while st:
        u = st.pop()
        if u.id in seen: continue
        seen.add(u.id)
        if u.op in ("fp.lt", "fp.le", "fp.isnan"):
            for a in u.args:
                if a.op in _ARITH: out[a.id] = a
        st.extend(u.args)
    return list(out.values())
def prove_cut(hyps, goal):
    """the goal for arbitrary values in place of the compared ones (knowing only their bounds)"""
    cs = _comparands(goal)
    if not cs or len(cs) > 8: return None
    m = {}; hs = []
    for u in cs:
        v = T.var("cut%d_%d" % (u.id, u.w), u.w); m[u] = v; r = T._fprange(u)
        if r: hs += [T.fp("fp.le", [T.fconst(r[0], u.w), v], 0), T.fp("fp.le", [v, T.fconst(r[1], u.w)], 0)]
    g = T.subst(goal, m)
    flat = []
    for h in hyps: flat += list(h.args) if h.op == "and" else [h]
    h2 = [T.subst(h, m) for h in flat]
    keep = set(leaves(g)) | {v.id for v in m.values()}
    r = prove_general([h for h in h2 if set(leaves(h)) <= keep] + hs, g, nocut=True, light=True)
    return r
def _atoms(goal):
    """comparisons of integers that decide an ite of the goal, outermost first"""
    out = {}; seen = set(); st = [goal]; conds = []
    while st:
        u = st.pop(0)
        if u.id in seen: continue
        seen.add(u.id)
        if u.op == "ite": conds.append(u.args[0])
        st.extend(u.args)
    while conds:
        u = conds.pop(0)
        if u.w == 0 and u.op in ("and", "or", "not", "ite"): conds.extend(u.args); continue
        if u.op in ("eq", "ult", "slt", "var") and not _has([u], lambda v: v.op.startswith("fp.")): out.setdefault(u.id, u)
    return list(out.values())
DBG=0
def prove_split(hyps, goal, limit=3000):
    """case distinction on the integer comparisons inside the goal; every case must close by simplification"""
    if not _atoms(goal): return None
    tr = translator("abs"); s = z3.Solver(); s.set("timeout", 1000)
    for h in flat_hyps(hyps).values():
        if _nonfp(h): s.add(tr.bv(h))
    n = [0]; leafmemo = {}
    def go(g):
        if g is T.TRUE: return True
        if g is T.FALSE: return s.check() == z3.unsat
        ats = _atoms(g)
        n[0] += 1
        if not ats or n[0] > limit:
            if s.check() == z3.unsat: return True
            if ats: return False
            k = leafmemo.get(g.id)
            if k is None:
                k = ival.prove([], g)
                if not k: r = prove_cut([], g); k = r is not None and r.status == "proved"
                if not k: k = prove_general1([], g, light=True).status == "proved"
                leafmemo[g.id] = k
            if DBG and not k: print('LEAF', n[0], T.show(g, 40))
            return k
        a = ats[0]
        for v in (T.TRUE, T.FALSE):
            s.push(); s.add(tr.bv(a if v is T.TRUE else T.not_(a)))
            if tr.side: s.add(*tr.side)
            ok = s.check() == z3.unsat or go(T.subst(g, {a: v}))
            s.pop()
            if not ok: return False
        return True
    return go(goal)
def prove_general(hyps, goal, inputs=(), nocomp=False, light=False, nocut=False, **kw):
    if not nocut:
        t0 = time.time()
        if not light and _has([goal], lambda u: u.op.startswith("fp.")) and prove_split(hyps, goal): return Result("proved", "cases", "z3-5.3.2", time.time() - t0)
        if _has([goal], lambda u: u.op in ival.CMP) and ival.prove(flat_hyps(hyps).values(), goal): return Result("proved", "intervals", "vc/ival", time.time() - t0)
        r = prove_cut(hyps, goal)
        if r is not None and r.status == "proved": return Result("proved", "cut+" + r.mode, r.backend, time.time() - t0)
    return prove_general1(hyps, goal, inputs, nocomp, light, **kw)
def prove_general1(hyps, goal, inputs=(), nocomp=False, light=False, **kw):
    """first try with only the hypotheses over the goal's own leaves, leaves renamed canonically (cached)"""
    if not nocomp:
        t0 = time.time()
        r = prove_components(hyps, goal)
        if r is not None and r.status == "proved": return Result("proved", "components+" + r.mode, r.backend, time.time() - t0)
    gl = leaves(goal)
    if len(gl) <= 6:
        order = sorted(gl.values(), key=lambda u: u.id)
        m = {u: T.var("g%d_%d" % (i, u.w), u.w) for i, u in enumerate(order)}
        flat = []
        for h in hyps: flat += list(h.args) if h.op == "and" else [h]
        rel = [h for h in flat if h is not T.TRUE and set(leaves(h)) <= set(gl)]
        g2 = T.subst(goal, m); h2 = T.and_(*[T.subst(h, m) for h in rel])
        key = (g2.id, h2.id)
        r = _gen_cache.get(key)
        if r is None:
            t0 = time.time()
            r = prove([h2], g2, (), timeouts=(2, 4, 10), use_cvc5=False)
            _gen_cache[key] = r
            if r.status == "proved": return r
        elif r.status == "proved":
            return Result("proved", r.mode + "+instance", r.backend, 0.0)
    if light: return Result("undecided")
    return prove(hyps, goal, inputs, **kw)

def satisfiable(hyps, timeout=5):
    h = T.and_(*hyps)
    if h is T.TRUE: return True
    if h is T.FALSE: return False
    for mode in ("abs", "exact"):
        tr = Tr(mode); s = z3.Solver(); s.set("timeout", int(timeout * 1000)); s.add(tr.bv(h))
        r = s.check()
        if r == z3.unsat: return False
        if mode == "exact": return r == z3.sat or None
        if r == z3.sat and not _has([h], lambda u: u.op in ("mul", "udiv", "urem", "sdiv", "srem") or u.op.startswith("fp.")):
            return True
    return None

def _nonfp(h):
    return not _has([h], lambda u: u.op.startswith("fp."))

def flat_hyps(hyps):
    out = {}
    for h in hyps:
        for x in (h.args if h.op == "and" else (h,)):
            if x is not T.TRUE: out[x.id] = x
    return out

def discharge(obs, inputs=(), timeouts=(10, 20, 40), batch=40, log=None):
    """obs: list with .hyps .goal ; returns list of Result, in order.
    Identical obligations are proved once; obligations without floating point are proved in batches
    (one query refuting the disjunction of the negations), then one by one if the batch is not refuted."""
    res = [None] * len(obs)
    todo = {}
    for i, o in enumerate(obs):
        if o.goal is T.TRUE: res[i] = Result("proved", "simplify", "simplifier"); continue
        h = flat_hyps(o.hyps)
        fpg = not _nonfp(o.goal)
        if not fpg: h = {k: v for k, v in h.items() if _nonfp(v)}
        if T.not_(o.goal).id in h or T.FALSE.id in h: pass
        if o.goal.id in h: res[i] = Result("proved", "hypothesis", "simplifier"); continue
        if T.FALSE.id in h: res[i] = Result("proved", "infeasible", "simplifier"); continue
        key = (o.goal.id, tuple(sorted(h)))
        todo.setdefault(key, []).append((i, o, h, fpg))
    plain = []; bad = 0
    for key, lst in todo.items():
        i, o, h, fpg = lst[0]
        if fpg:
            if bad >= 4:
                for j, *_ in lst: res[j] = Result("undecided", "skipped after 4 failures")
                continue
            r = prove_general(list(h.values()), o.goal, inputs, timeouts=timeouts)
            if r.status != "proved": bad += 1
            for j, *_ in lst: res[j] = r
        else: plain.append((o, h, [j for j, *_ in lst]))
    for k in range(0, len(plain), batch):
        grp = plain[k:k + batch]
        common = set(grp[0][1])
        for o, h, _ in grp: common &= set(h)
        allh = grp[0][1]
        dis = []
        for o, h, _ in grp:
            dis.append(T.and_(*[v for kk, v in h.items() if kk not in common], T.not_(stronger(o.goal))))
        r = prove([allh[c] for c in common], T.not_(T.or_(*dis)), (), timeouts=timeouts, use_cvc5=False) if len(grp) > 1 else None
        if r is not None and r.status == "proved":
            share = r.secs / len(grp)
            for o, h, js in grp:
                for j in js: res[j] = Result("proved", r.mode + "+batch", r.backend, share)
        else:
            for o, h, js in grp:
                if bad >= 8:
                    for j in js: res[j] = Result("undecided", "skipped after failures")
                    continue
                q = prove_general(list(h.values()), o.goal, inputs, timeouts=timeouts)
                if q.status != "proved": bad += 1
                for j in js: res[j] = q
    return res
