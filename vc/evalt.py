"""Concrete evaluation of terms (used for vacuity guards and the simplifier self-test)."""
import math, struct
from . import term as T

def evaluate(terms, env, uf=None):
    """env: var name -> int.  uf(name,args,w) -> int.  returns list of ints"""
    val = {}
    uf = uf or (lambda n, a, w: 0)
    def one(u):
        op = u.op; w = u.w; m = (1 << w) - 1 if w else 1
        A = [val[a.id] for a in u.args]
        ws = [a.w for a in u.args]
        if op == "const": return u.x
        if op == "var": return env[u.x] & m if u.x in env else uf("var:" + u.x, [], w) & m
        if op == "uf": return uf(u.x, A, w) & m
        if op == "not": return 1 - A[0]
        if op == "and": return int(all(A))
        if op == "or": return int(any(A))
        if op == "eq": return int(A[0] == A[1])
        if op == "ite": return A[1] if A[0] else A[2]
        if op == "ult": return int(A[0] < A[1])
        sg = lambda v, ww: v - (1 << ww) if v >> (ww - 1) else v
        if op == "slt": return int(sg(A[0], ws[0]) < sg(A[1], ws[1]))
        if op == "lin":
            c, ks = u.x
            return (c + sum(a * k for a, k in zip(A, ks))) & m
        if op == "mul": return (A[0] * A[1]) & m
        if op == "udiv": return m if A[1] == 0 else A[0] // A[1]
        if op == "urem": return A[0] if A[1] == 0 else A[0] % A[1]
        if op == "sdiv":
            a, b = sg(A[0], w), sg(A[1], w)
            if b == 0: return (1 if a < 0 else -1) & m
            q = abs(a) // abs(b); return (q if (a < 0) == (b < 0) else -q) & m
        if op == "srem":
            a, b = sg(A[0], w), sg(A[1], w)
            if b == 0: return a & m
            q = abs(a) % abs(b); return (q if a >= 0 else -q) & m
        if op == "concat": return (A[0] << ws[1]) | A[1]
        if op == "extract": return (A[0] >> u.x[1]) & ((1 << (u.x[0] - u.x[1] + 1)) - 1)
        if op == "zext": return A[0]
        if op == "sext": return sg(A[0], ws[0]) & m
        if op == "bvand": return A[0] & A[1]
        if op == "bvor": return A[0] | A[1]
        if op == "bvxor": return A[0] ^ A[1]
        if op == "shl": return (A[0] << A[1]) & m if A[1] < w else 0
        if op == "lshr": return A[0] >> A[1] if A[1] < w else 0
        if op == "ashr": return (sg(A[0], w) >> min(A[1], w)) & m
        if op.startswith("fp."):
            cs = [T.const(a, ww) for a, ww in zip(A, ws)]
            r = T.fp(op, cs, w, u.x)
            if T.isc(r): return r.x
            return uf(op, A, w) & m
        raise Exception("evaluate " + op)
    for t in terms:
        st = [t]
        while st:
            u = st[-1]
            if u.id in val: st.pop(); continue
            p = [a for a in u.args if a.id not in val]
            if p: st.extend(p); continue
            val[u.id] = one(u); st.pop()
    return [val[t.id] for t in terms]
