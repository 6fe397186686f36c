"""Refutation of floating-point comparisons by case analysis and intervals.

To prove a goal its negation is assumed together with the hypotheses; the boolean structure is split into cases and each case is
closed when the bounds it implies for some value are empty.  Bounds are propagated through rounding arithmetic, which is monotone,
so computing with the corners of the operands' bounds is exact or too wide, never too narrow."""
import math
from . import term as T
INF = math.inf
CMP = ("fp.lt", "fp.le", "fp.isnan")
class Stop(Exception): pass
def nxt(v, w, up):
    if w == 64: return math.nextafter(v, INF if up else -INF)
    import numpy as np
    return float(np.nextafter(np.float32(v), np.float32(INF if up else -INF)))
class Env:
    __slots__ = ("b", "lits", "cache", "bools", "ints")
    def __init__(self): self.b = {}; self.lits = []; self.cache = {}; self.bools = {}; self.ints = {}
    def fork(self):
        e = Env(); e.b = dict(self.b); e.lits = list(self.lits); e.bools = dict(self.bools); e.ints = dict(self.ints); return e
    def rng(self, t, depth=0):
        """bounds of t, None if it may be NaN; raises Stop if the case is empty"""
        if t.id in self.cache: return self.cache[t.id]
        r = self.raw(t, depth)
        o = self.b.get(t.id)
        if o is not None:
            r = o if r is None else (max(r[0], o[0]), min(r[1], o[1]))
            if r[0] > r[1]: raise Stop()
        self.cache[t.id] = r
        return r
    def raw(self, t, depth):
        if t.id in T.FPFACTS: return T.FPFACTS[t.id]
        if T.isc(t):
            v = T.b2f(t.x, t.w); return None if math.isnan(v) else (v, v)
        if depth > 40: return None
        rnd = (lambda v: v) if t.w == 64 else T._r32
        if t.op in ("fp.fromui", "fp.fromsi"): return T._fprange(t)
        if t.op == "ite":
            c = self.bools.get(t.args[0].id)
            if c is True: return self.rng(t.args[1], depth + 1)
            if c is False: return self.rng(t.args[2], depth + 1)
            p, q = self.rng(t.args[1], depth + 1), self.rng(t.args[2], depth + 1)
            return None if p is None or q is None else (min(p[0], q[0]), max(p[1], q[1]))
        if t.op == "uf":
            if t.x not in T.UF_RANGE: return None
            p = [self.rng(a, depth + 1) for a in t.args]
            return T.UF_RANGE[t.x](p) if all(x is not None for x in p) else None
        if t.op in ("fp.cvt", "fp.sqrt", "fp.round"):
            if t.args[0].w not in (32, 64): return None
            p = self.rng(t.args[0], depth + 1)
            if p is None: return None
            if t.op == "fp.cvt": return (rnd(p[0]), rnd(p[1]))
            if t.op == "fp.sqrt": return (rnd(math.sqrt(p[0])), rnd(math.sqrt(p[1]))) if p[0] >= 0 else None
            f = {"RNA": T._round_away, "RTN": lambda z: float(math.floor(z)), "RTP": lambda z: float(math.ceil(z)), "RTZ": lambda z: float(math.trunc(z)), "RNE": lambda z: float(round(z))}[t.x]
            g = lambda v: v if math.isinf(v) else f(v)
            return (g(p[0]), g(p[1]))
        if t.op in ("fp.add", "fp.sub", "fp.mul", "fp.div") and t.args[0].w == t.w:
            p, q = self.rng(t.args[0], depth + 1), self.rng(t.args[1], depth + 1)
            if p is None or q is None: return None
            inf = lambda r: math.isinf(r[0]) or math.isinf(r[1]); zero = lambda r: r[0] <= 0.0 <= r[1]
            if t.op in ("fp.add", "fp.sub"):
                if t.op == "fp.sub": q = (-q[1], -q[0])
                if (p[1] == INF and q[0] == -INF) or (p[0] == -INF and q[1] == INF): return None
                return (rnd(p[0] + q[0]), rnd(p[1] + q[1]))
            if t.op == "fp.mul":
                if (inf(p) and zero(q)) or (inf(q) and zero(p)):
                    if not (t.args[0] is t.args[1]): return None
                    return (0.0, INF)
                c = [rnd(a * b) for a in p for b in q]
                if t.args[0] is t.args[1]: c = [max(v, 0.0) for v in c]
            else:
                if zero(q) or (inf(p) and inf(q)): return None
                c = [rnd(a / b) if b else 0.0 for a in p for b in q]
            return (min(c), max(c))
        return None
    def bound(self, t, lo, hi):
        o = self.b.get(t.id, (-INF, INF)); n = (max(o[0], lo), min(o[1], hi))
        if n[0] > n[1]: raise Stop()
        if n != o or t.id not in self.b: self.b[t.id] = n; self.cache = {}; return True
        return False
    def literal(self, t, v):
        """assume the comparison t has value v; True if bounds changed"""
        if t.op == "fp.isnan":
            a = t.args[0]; r = self.rng(a)
            if v:
                if r is not None: raise Stop()
                return False
            return self.bound(a, -INF, INF)
        a, b = t.args; strict = t.op == "fp.lt"
        ra, rb = self.rng(a), self.rng(b)
        if v:      # both are numbers
            ch = False
            if ra is None: ch |= self.bound(a, -INF, INF); ra = (-INF, INF)
            if rb is None: ch |= self.bound(b, -INF, INF); rb = (-INF, INF)
        else:
            if ra is None or rb is None: return False
            a, b, ra, rb, strict = b, a, rb, ra, not strict; ch = False     # not (a < b)  =  b <= a
        if strict:
            if ra[0] >= rb[1]: raise Stop()
            if rb[1] < INF or ra[1] == INF: ch |= self.bound(a, -INF, nxt(rb[1], a.w, False))
            if ra[0] > -INF or rb[0] == -INF: ch |= self.bound(b, nxt(ra[0], b.w, True), INF)
        else:
            if ra[0] > rb[1]: raise Stop()
            ch |= self.bound(a, -INF, rb[1]); ch |= self.bound(b, ra[0], INF)
        return ch
    def integer(self, t, v):
        """assume an integer comparison with a constant"""
        a, b = t.args
        if a.w == 0: return
        if T.isc(a) == T.isc(b): return
        x, c, left = (a, b.x, True) if T.isc(b) else (b, a.x, False)
        lo, hi, no = self.ints.get(x.id, (0, (1 << x.w) - 1, frozenset()))
        if t.op == "eq":
            if v: lo, hi = max(lo, c), min(hi, c)
            else: no = no | {c}
        else:
            if left and v: hi = min(hi, c - 1)
            elif left: lo = max(lo, c)
            elif v: lo = max(lo, c + 1)
            else: hi = min(hi, c)
        while lo in no: lo += 1
        while hi in no: hi -= 1
        if lo > hi: raise Stop()
        self.ints[x.id] = (lo, hi, no)
    def settle(self):
        for _ in range(12):
            ch = False
            for t, v in self.lits: ch |= bool(self.literal(t, v))
            if not ch: return
def _splits(lits):
    """an undecided condition inside a compared value"""
    seen = set(); st = [a for t, v in lits for a in t.args]
    while st:
        u = st.pop()
        if u.id in seen: continue
        seen.add(u.id)
        if u.op == "ite": yield u.args[0]; st += [u.args[1], u.args[2]]
        elif u.op.startswith("fp.") or u.op == "uf": st.extend(u.args)
def refute(forms, env, budget):
    """True if the formulas [(term, value)] cannot all hold"""
    forms = list(forms); branch = []
    try:
        while forms:
            t, v = forms.pop()
            if T.isc(t):
                if bool(t.x) != v: return True
                continue
            k = env.bools.get(t.id)
            if k is not None:
                if k != v: return True
                continue
            if t.op != "ite": env.bools[t.id] = v; env.cache = {}
            if t.op == "not": forms.append((t.args[0], not v))
            elif (t.op == "and" and v) or (t.op == "or" and not v): forms += [(a, v) for a in t.args]
            elif t.op in ("and", "or"): branch.append((t, v))
            elif t.op == "ite" and t.w == 0: branch.append((t, v))
            elif t.op in CMP: env.lits.append((t, v)); env.literal(t, v)
            elif t.op in ("eq", "ult"): env.integer(t, v)
        env.settle()
    except Stop: return True
    def val(t):
        """truth of a formula in this case, None if open"""
        if T.isc(t): return bool(t.x)
        k = env.bools.get(t.id)
        if k is not None and t.op not in ("and", "or"): return k
        if t.op == "not":
            r = val(t.args[0]); return None if r is None else not r
        if t.op in CMP:
            rs = [env.rng(a) for a in t.args]
            if any(r is None for r in rs): return None
            if t.op == "fp.isnan": return False
            (al, ah), (bl, bh) = rs
            if t.op == "fp.lt": return True if ah < bl else False if al >= bh else None
            return True if ah <= bl else False if al > bh else None
        if t.op in ("and", "or"):
            z = t.op == "or"; rs = [val(a) for a in t.args]
            if z in rs: return z
            return None if None in rs else not z
        if t.op == "ite" and t.w == 0:
            c = val(t.args[0])
            return val(t.args[1]) if c is True else val(t.args[2]) if c is False else None
        return None
    try:
        rest = []
        for t, v in branch:
            r = val(t)
            if r is None: rest.append((t, v))
            elif r != v: return True
    except Stop: return True
    def go(more, keep):
        if budget[0] <= 0: return False
        budget[0] -= 1
        e = env.fork()
        for t, v in keep: e.bools.pop(t.id, None)
        return refute(more + keep, e, budget)
    if rest:
        rest.sort(key=lambda p: len(p[0].args)); (t, v), keep = rest[0], rest[1:]
        if t.op == "ite":
            c, a, b = t.args
            return go([(c, True), (a, v)], keep) and go([(c, False), (b, v)], keep)
        # and = false / or = true: one of the arguments, in order
        env.bools.pop(t.id, None); pre = []
        try: vs = [val(a) for a in t.args]
        except Stop: return True
        for a, k in zip(t.args, vs):
            if k is not None and k != v: continue
            if not go([(a, v)] + pre, keep): return False
            pre.append((a, not v))
        return True
    for c in _splits(env.lits):
        if c.id in env.bools: continue
        return go([(c, True)], []) and go([(c, False)], [])
    return False
def prove(hyps, goal, n=400):
    lits = []
    for h in hyps:
        for x in (h.args if h.op == "and" else (h,)):
            y = x.args[0] if x.op == "not" else x
            if y.op in CMP or (y.op in ("eq", "ult") and T.isc(y.args[0]) != T.isc(y.args[1])): lits.append((x, True))
    try: return refute(lits + [(goal, False)], Env(), [n])
    except RecursionError: return False
