"""Self-test of the simplifying term constructors: random expressions, simplified form against direct semantics."""
import random, sys
import math
from . import term as T, evalt, ival
W = (1, 4, 8, 16, 32, 64)
sg = lambda v, w: v - (1 << w) if v >> (w - 1) else v
def gen(rng, w, d, env):
    """-> (term, value)"""
    m = (1 << w) - 1 if w else 1
    if w == 0:
        if d <= 0: v = rng.randrange(2); return (T.TRUE if v else T.FALSE), v
        k = rng.randrange(8)
        if k == 0: a, x = gen(rng, 0, d - 1, env); return T.not_(a), 1 - x
        if k in (1, 2):
            l = [gen(rng, 0, d - 1, env) for _ in range(rng.randrange(2, 4))]
            return (T.and_ if k == 1 else T.or_)(*[a for a, _ in l]), int((all if k == 1 else any)(x for _, x in l))
        w2 = rng.choice(W); a, x = gen(rng, w2, d - 1, env); b, y = gen(rng, w2, d - 1, env)
        if k == 3: return T.eq(a, b), int(x == y)
        if k == 4: return T.slt(a, b), int(sg(x, w2) < sg(y, w2))
        if k == 5: return T.ule(a, b), int(x <= y)
        if k == 6: return T.sle(a, b), int(sg(x, w2) <= sg(y, w2))
        return T.ult(a, b), int(x < y)
    if d <= 0 or rng.random() < .1:
        if rng.random() < .45: v = rng.choice([0, 1, m, m >> 1, (m >> 1) + 1, rng.getrandbits(w), rng.randrange(9) & m, (1 << rng.randrange(w))]); return T.const(v, w), v
        n = "v%d_%d" % (w, rng.randrange(3)); v = env.setdefault(n, rng.choice([rng.getrandbits(w), 0, m, rng.randrange(4) & m])); return T.var(n, w), v
    k = rng.randrange(20)
    if k == 0:
        c, x = gen(rng, 0, d - 1, env); a, y = gen(rng, w, d - 1, env); b, z = gen(rng, w, d - 1, env)
        return T.ite(c, a, b), y if x else z
    if k == 1:
        ws = [v for v in W if v < w]
        if ws: w2 = rng.choice(ws); a, x = gen(rng, w2, d - 1, env); return T.zext(a, w), x
    if k == 2:
        ws = [v for v in W if v < w]
        if ws: w2 = rng.choice(ws); a, x = gen(rng, w2, d - 1, env); return T.sext(a, w), sg(x, w2) & m
    if k == 3:
        ws = [v for v in W if v > w]
        if ws: w2 = rng.choice(ws); lo = rng.randrange(w2 - w + 1); a, x = gen(rng, w2, d - 1, env); return T.extract(a, lo + w - 1, lo), (x >> lo) & m
    if k == 4 and w >= 8:
        a, x = gen(rng, w // 2, d - 1, env); b, y = gen(rng, w // 2, d - 1, env); return T.concat(a, b), (x << (w // 2)) | y
    a, x = gen(rng, w, d - 1, env)
    if k == 5: kk = rng.randrange(-9, 9); return T.mulc(a, kk), (x * kk) & m
    if k == 6: return T.bvnot(a), x ^ m
    b, y = gen(rng, w, d - 1, env)
    if k in (7, 8): return T.add(a, b), (x + y) & m
    if k == 9: return T.sub(a, b), (x - y) & m
    if k == 10: return T.mul(a, b), (x * y) & m
    if k in (11, 12): y = y or 1; b = T.const(y, w)        # division by zero is excluded by an obligation of its own
    if k == 11: return T.udiv(a, b), (x // y if y else m)
    if k == 12: return T.urem(a, b), (x % y if y else x)
    if k == 13: return T.bvand(a, b), x & y
    if k == 14: return T.bvor(a, b), x | y
    if k == 15: return T.bvxor(a, b), x ^ y
    if rng.random() < .7: y = rng.randrange(w); b = T.const(y, w)
    if k == 16: return T.shl(a, b), (x << y) & m if y < w else 0
    if k == 17: return T.lshr(a, b), x >> y if y < w else 0
    if k == 18: return T.ashr(a, b), (sg(x, w) >> min(y, w)) & m
    if y == 0: b = T.const(1, w); y = 1
    q = abs(sg(x, w)) // abs(sg(y, w)); q = q if (sg(x, w) < 0) == (sg(y, w) < 0) else -q
    if rng.random() < .5: return T.sdiv(a, b), q & m
    return T.srem(a, b), (sg(x, w) - q * sg(y, w)) & m
def fgen(rng, d):
    if d <= 0 or rng.random() < .2:
        k = rng.randrange(4)
        if k == 0: return T.fconst(rng.choice([0.0, 1.0, -1.0, 0.5, 255.0, 1e300, -0.0, 3.0]), 64)
        if k == 1: return T.fp(rng.choice(["fp.fromui", "fp.fromsi"]), [T.var("n%d" % rng.randrange(2), 8)], 64)
        return T.var("x%d" % rng.randrange(3), 64)
    k = rng.randrange(8)
    if k == 0: return T.ite(fpred(rng, d - 1), fgen(rng, d - 1), fgen(rng, d - 1))
    if k == 1: return T.fp("fp.round", [fgen(rng, d - 1)], 64, rng.choice(["RNA", "RTN", "RTP", "RTZ"]))
    if k == 2: return T.fp("fp.cvt", [T.fp("fp.cvt", [fgen(rng, d - 1)], 32)], 64)
    a, b = fgen(rng, d - 1), fgen(rng, d - 1)
    return T.fp(rng.choice(["fp.add", "fp.sub", "fp.mul", "fp.div"]), [a, a if rng.random() < .1 else b], 64)
def fpred(rng, d):
    k = rng.randrange(10)
    if d <= 0 or k < 5:
        if k == 4 and rng.random() < .5: return rng.choice([T.eq(T.var("n0", 8), T.const(rng.randrange(4), 8)), T.ult(T.var("n0", 8), T.const(rng.randrange(9), 8)), T.ult(T.const(rng.randrange(9), 8), T.var("n1", 8))])
        a, b = fgen(rng, d - 1), fgen(rng, d - 1)
        if k == 0: return T.fp("fp.isnan", [a], 0)
        return T.fp(rng.choice(["fp.lt", "fp.le"]), [a, b], 0)
    if k == 5: return T.not_(fpred(rng, d - 1))
    if k == 6: return T.ite(fpred(rng, d - 1), fpred(rng, d - 1), fpred(rng, d - 1))
    return (T.and_ if k < 8 else T.or_)(*[fpred(rng, d - 1) for _ in range(rng.randrange(2, 4))])
def intervals(n=6000, seed=1):
    """whatever the interval prover accepts holds for random and special values; likewise the simplifier's comparisons"""
    rng = random.Random(seed); bad = ok = 0; nan = 0x7ff8000000000000
    sp = [T.f2b(v, 64) for v in (0.0, -0.0, 1.0, -1.0, 0.5, 255.0, 1e300, -1e300, float("inf"), -float("inf"), 5e-324, 2.0, 0.25)] + [nan]
    for i in range(n):
        h = [fpred(rng, 1) for _ in range(rng.randrange(3))]; g = fpred(rng, rng.randrange(1, 5))
        if rng.random() < .5:      # clamp-like goals, which are often true
            v = fgen(rng, 2); lo, hi = T.fconst(0.0, 64), T.fconst(rng.choice([1.0, 2.0]), 64)
            c = T.ite(T.fp("fp.lt", [v, lo], 0), lo, T.ite(T.fp("fp.lt", [hi, v], 0), hi, v))
            g = T.or_(T.fp("fp.isnan", [v], 0), T.fp("fp.lt", [T.fp("fp.mul", [c, T.fconst(3.0, 64)], 64), T.fconst(rng.choice([2.5, 3.0, 3.5, 6.5]), 64)], 0), g if rng.random() < .3 else T.FALSE)
        for a in h:
            for y in (a.args if a.op == "and" else (a,)): pass
        if not ival.prove(h, g, 200): continue
        ok += 1
        for _ in range(60):
            env = {"x%d" % j: rng.choice(sp) if rng.random() < .6 else T.f2b(rng.uniform(-3, 3), 64) for j in range(3)}
            env.update({"n%d" % j: rng.choice([0, 1, 2, 3, 128, 255, rng.randrange(256)]) for j in range(2)})
            r = evalt.evaluate([T.and_(*h), g], env, lambda nm, a, w: nan if w == 64 else 0x7fc00000)
            if r[0] and not r[1]: bad += 1; print("interval prover wrong:", T.show(T.and_(*h), 6), "=>", T.show(g, 8), {k: (T.b2f(v, 64) if k[0] == "x" else v) for k, v in env.items()}); break
        if bad > 3: break
    print("self-test: %d of %d floating-point goals accepted, %d wrong" % (ok, n, bad))
    return 1 if bad else 0
def main(n=30000, seed=1):
    rng = random.Random(seed); bad = 0
    for i in range(n):
        env = {}
        t, v = gen(rng, rng.choice((0,) + W), rng.randrange(1, 6), env)
        try: r = evalt.evaluate([t], env)[0]
        except Exception as e: print("error", e); bad += 1; continue
        if r != v: bad += 1; print("simplifier wrong:", T.show(t, 6), env, r, v)
        if bad > 3: break
    print("self-test: %d random terms, %d wrong" % (n, bad))
    return 1 if bad else intervals()
if __name__ == "__main__": sys.exit(main())
