"""Hash-consed bit-vector / boolean terms with light canonicalisation.

Width 0 is Bool, width n>0 is a bit-vector of n bits.  Floats are carried as their IEEE bit
patterns; floating point operations are 'fp.*' nodes.  Non-linear operations ('mul','udiv',...) and
'fp.*' nodes are translated either as uninterpreted functions (first attempt; proving with them
uninterpreted proves the exact statement) or exactly (second attempt)."""
import struct, math, sys
sys.setrecursionlimit(200000)

_table = {}
_count = [0]

class T:
    __slots__ = ("op", "args", "w", "x", "id", "_vars")
    def __repr__(self):
        return show(self)

def _mk(op, args, w, x=None):
    key = (op, tuple(a.id for a in args), w, x)
    t = _table.get(key)
    if t is None:
        t = T()
        t.op = op; t.args = tuple(args); t.w = w; t.x = x
        _count[0] += 1
        t.id = _count[0]
        t._vars = None
        _table[key] = t
    return t

def show(t, depth=6):
    if t.op == "const":
        return str(bool(t.x)) if t.w == 0 else (str(t.x) if t.x < 4096 else hex(t.x))
    if t.op == "var":
        return t.x
    if depth == 0:
        return "..."
    if t.op == "lin":
        c, coefs = t.x
        parts = []
        for a, k in zip(t.args, coefs):
            ks = k if k < (1 << (t.w - 1)) else k - (1 << t.w)
            parts.append(("%d*" % ks if ks != 1 else "") + show(a, depth - 1))
        if c:
            cs = c if c < (1 << (t.w - 1)) else c - (1 << t.w)
            parts.append(str(cs))
        return "(" + " + ".join(parts) + ")"
    x = "" if t.x is None else "[%s]" % (t.x,)
    return "%s%s(%s)" % (t.op, x, ", ".join(show(a, depth - 1) for a in t.args))

def const(v, w):
    if w == 0:
        return TRUE if v else FALSE
    return _mk("const", (), w, v & ((1 << w) - 1))

TRUE = _mk("const", (), 0, 1)
FALSE = _mk("const", (), 0, 0)

def var(name, w):
    return _mk("var", (), w, name)

def isc(t):
    return t.op == "const"

def sval(t):
    return t.x - (1 << t.w) if t.x >> (t.w - 1) else t.x

# ---------------------------------------------------------------- booleans
def not_(a):
    if isc(a): return FALSE if a.x else TRUE
    if a.op == "not": return a.args[0]
    return _mk("not", (a,), 0)

def and_(*xs):
    out = {}
    for a in xs:
        if isc(a):
            if not a.x: return FALSE
            continue
        for b in (a.args if a.op == "and" else (a,)):
            out[b.id] = b
    for b in out.values():
        if not_(b).id in out: return FALSE
    # absorption: a & (a | b)
    if not out: return TRUE
    if len(out) == 1: return next(iter(out.values()))
    # resolve  a & or(not a, b)
    res = {}
    changed = False
    for i, b in out.items():
        if b.op == "or":
            ids = [c.id for c in b.args]
            if any(c in out for c in ids):
                changed = True
                continue
            keep = [c for c in b.args if not_(c).id not in out]
            if len(keep) != len(b.args):
                b = or_(*keep); changed = True
        elif b.op == "not" and b.args[0].op == "and":
            if any(not_(c).id in out for c in b.args[0].args):
                changed = True
                continue
            keep = [c for c in b.args[0].args if c.id not in out]
            if len(keep) != len(b.args[0].args):
                b = not_(and_(*keep)); changed = True
        res[b.id] = b
    if changed: return and_(*res.values())
    return _mk("and", tuple(sorted(res.values(), key=lambda t: t.id)), 0)

def or_(*xs):
    out = {}
    for a in xs:
        if isc(a):
            if a.x: return TRUE
            continue
        for b in (a.args if a.op == "or" else (a,)):
            out[b.id] = b
    for b in out.values():
        if not_(b).id in out: return TRUE
    if not out: return FALSE
    if len(out) == 1: return next(iter(out.values()))
    # common conjunct factoring: (a&b)|(a&~b) -> a ; and a | (not a & b) -> a | b
    lst = list(out.values())
    if len(lst) >= 2:
        sets = [set(c.id for c in (t.args if t.op == "and" else (t,))) for t in lst]
        common = set.intersection(*sets)
        if common:
            m = {}
            for t in lst:
                for c in (t.args if t.op == "and" else (t,)): m[c.id] = c
            rest = []
            for t in lst:
                cs = (t.args if t.op == "and" else (t,))
                rest.append(and_(*[c for c in cs if c.id not in common]))
            return and_(or_(*rest), *[m[i] for i in common])
    res = {}
    changed = False
    for i, b in out.items():
        if b.op == "and":
            ids = [c.id for c in b.args]
            if any(c in out for c in ids):
                changed = True
                continue
            keep = [c for c in b.args if not_(c).id not in out]
            if len(keep) != len(b.args):
                b = and_(*keep); changed = True
        elif b.op == "not" and b.args[0].op == "or":
            if any(not_(c).id in out for c in b.args[0].args):
                changed = True
                continue
            keep = [c for c in b.args[0].args if c.id not in out]
            if len(keep) != len(b.args[0].args):
                b = not_(or_(*keep)); changed = True
        res[b.id] = b
    if changed: return or_(*res.values())
    return _mk("or", tuple(sorted(res.values(), key=lambda t: t.id)), 0)

def implies(a, b): return or_(not_(a), b)
def iff(a, b): return eq(a, b)

# ---------------------------------------------------------------- linear arithmetic
def lin_parts(t):
    """-> (const, {atom: coef})"""
    if t.op == "const": return t.x, {}
    if t.op == "lin":
        return t.x[0], dict(zip(t.args, t.x[1]))
    return 0, {t: 1}

def lin_make(c, d, w):
    m = (1 << w) - 1
    c &= m
    items = [(a, k & m) for a, k in d.items() if k & m]
    if not items: return const(c, w)
    items.sort(key=lambda p: p[0].id)
    if c == 0 and len(items) == 1 and items[0][1] == 1: return items[0][0]
    return _mk("lin", tuple(a for a, k in items), w, (c, tuple(k for a, k in items)))

def add(a, b):
    assert a.w == b.w, (a, b)
    if a.op == "ite" and isc(b) and isc(a.args[1]) and isc(a.args[2]):
        return ite(a.args[0], add(a.args[1], b), add(a.args[2], b))
    c1, d1 = lin_parts(a); c2, d2 = lin_parts(b)
    d = dict(d1)
    for k, v in d2.items(): d[k] = d.get(k, 0) + v
    return lin_make(c1 + c2, d, a.w)

def mulc(a, k):
    c, d = lin_parts(a)
    return lin_make(c * k, {x: v * k for x, v in d.items()}, a.w)

def neg(a): return mulc(a, -1)
def sub(a, b): return add(a, neg(b))

def mul(a, b):
    if isc(a): return mulc(b, a.x)
    if isc(b): return mulc(a, b.x)
    # distribute over linear sums so that (x+c)*y is canonical
    ca, da = lin_parts(a); cb, db = lin_parts(b)
    if len(da) + (1 if ca else 0) > 1 or len(db) + (1 if cb else 0) > 1 or \
       (len(da) == 1 and list(da.values()) != [1]) or (len(db) == 1 and list(db.values()) != [1]):
        if (len(da) + 1) * (len(db) + 1) <= 16:
            r = const(ca * cb, a.w)
            for x, k in da.items(): r = add(r, mulc(x, k * cb))
            for y, k in db.items(): r = add(r, mulc(y, k * ca))
            for x, k in da.items():
                for y, l in db.items():
                    p, q = (x, y) if x.id <= y.id else (y, x)
                    r = add(r, mulc(_mk("mul", (p, q), a.w), k * l))
            return r
    if a.id > b.id: a, b = b, a
    return _mk("mul", (a, b), a.w)

def _ite_lift2(f, a, b):
    if a.op == "ite" and isc(b) and isc(a.args[1]) and isc(a.args[2]):
        return ite(a.args[0], f(a.args[1], b), f(a.args[2], b))
    if b.op == "ite" and isc(a) and isc(b.args[1]) and isc(b.args[2]):
        return ite(b.args[0], f(a, b.args[1]), f(a, b.args[2]))
    return None

def udiv(a, b):
    if isc(b) and b.x:
        if isc(a): return const(a.x // b.x, a.w)
        if b.x == 1: return a
        if b.x & (b.x - 1) == 0: return lshr(a, const(b.x.bit_length() - 1, a.w))
        if a.op == "lin":
            # (n*b + r) / b = n when nothing wraps
            c, ks = a.x
            if all(k % b.x == 0 for k in ks) and c + sum(k * ((1 << (a.w - known_zero_high(x))) - 1) for x, k in zip(a.args, ks)) < 1 << a.w:
                r = const(c // b.x, a.w)
                for x, k in zip(a.args, ks): r = add(r, mulc(x, k // b.x))
                return r
    return _mk("udiv", (a, b), a.w)

def urem(a, b):
    if isc(b) and b.x:
        if isc(a): return const(a.x % b.x, a.w)
        if b.x == 1: return const(0, a.w)
        if b.x & (b.x - 1) == 0: return zext(extract(a, b.x.bit_length() - 2, 0), a.w)
    return _mk("urem", (a, b), a.w)

def sdiv(a, b):
    if isc(a) and isc(b) and b.x:
        x, y = sval(a), sval(b)
        q = abs(x) // abs(y)
        return const(q if (x < 0) == (y < 0) else -q, a.w)
    return _mk("sdiv", (a, b), a.w)

def srem(a, b):
    if isc(a) and isc(b) and b.x:
        x, y = sval(a), sval(b)
        r = abs(x) % abs(y)
        return const(-r if x < 0 else r, a.w)
    return _mk("srem", (a, b), a.w)

# ---------------------------------------------------------------- bit ops
def extract(a, hi, lo):
    w = hi - lo + 1
    if w == a.w: return a
    if isc(a): return const(a.x >> lo, w)
    if a.op == "extract": return extract(a.args[0], hi + a.x[1], lo + a.x[1])
    if a.op == "zext":
        b = a.args[0]
        if lo >= b.w: return const(0, w)
        if hi < b.w: return extract(b, hi, lo)
        return zext(extract(b, b.w - 1, lo), w)
    if a.op == "sext":
        b = a.args[0]
        if hi < b.w: return extract(b, hi, lo)
        if lo < b.w: return sext(extract(b, b.w - 1, lo), w)
    if a.op == "concat":
        h, l = a.args
        if hi < l.w: return extract(l, hi, lo)
        if lo >= l.w: return extract(h, hi - l.w, lo - l.w)
        return concat(extract(h, hi - l.w, 0), extract(l, l.w - 1, lo))
    if a.op == "ite":
        return ite(a.args[0], extract(a.args[1], hi, lo), extract(a.args[2], hi, lo))
    if a.op in ("bvand", "bvor", "bvxor"):
        f = {"bvand": bvand, "bvor": bvor, "bvxor": bvxor}[a.op]
        return f(extract(a.args[0], hi, lo), extract(a.args[1], hi, lo))
    if a.op == "bvnot": return bvnot(extract(a.args[0], hi, lo))
    if a.op == "lin" and lo == 0:
        c, coefs = a.x
        r = const(c, w)
        for x, k in zip(a.args, coefs): r = add(r, mulc(extract(x, hi, 0), k))
        return r
    if a.op == "lin" and a.x[0] == 0 and len(a.args) == 1 and a.x[1][0] & (a.x[1][0] - 1) == 0 and lo >= a.x[1][0].bit_length() - 1 > 0:
        k = a.x[1][0].bit_length() - 1
        return extract(a.args[0], hi - k, lo - k)
    if a.op == "mul" and lo == 0:
        return mul(extract(a.args[0], hi, 0), extract(a.args[1], hi, 0))
    return _mk("extract", (a,), w, (hi, lo))

def trunc(a, w): return extract(a, w - 1, 0)

def concat(h, l):
    if isc(h) and isc(l): return const((h.x << l.w) | l.x, h.w + l.w)
    if isc(h) and h.x == 0: return zext(l, h.w + l.w)
    if h.op == "extract" and l.op == "extract" and h.args[0] is l.args[0] and h.x[1] == l.x[0] + 1:
        return extract(h.args[0], h.x[0], l.x[1])
    if l.op == "concat" :
        pass
    if h.op == "concat":      # right-assoc
        return concat(h.args[0], concat(h.args[1], l))
    if l.op == "concat" and h.op == "extract" and l.args[0].op == "extract" and \
       h.args[0] is l.args[0].args[0] and h.x[1] == l.args[0].x[0] + 1:
        return concat(extract(h.args[0], h.x[0], l.args[0].x[1]), l.args[1])
    if h.op == "ite" and l.op == "ite" and h.args[0] is l.args[0]:
        return ite(h.args[0], concat(h.args[1], l.args[1]), concat(h.args[2], l.args[2]))
    return _mk("concat", (h, l), h.w + l.w)

def zext(a, w):
    if a.w == w: return a
    if a.w == 0: return ite(a, const(1, w), const(0, w))
    if isc(a): return const(a.x, w)
    if a.op == "zext": return zext(a.args[0], w)
    if a.op == "ite":
        return ite(a.args[0], zext(a.args[1], w), zext(a.args[2], w))
    if a.op == "lin":
        # distribute when no wrap-around is possible
        c, ks = a.x
        tot = c
        for x, k in zip(a.args, ks): tot += k * ((1 << (a.w - known_zero_high(x))) - 1)
        if tot < (1 << a.w):
            r = const(c, w)
            for x, k in zip(a.args, ks): r = add(r, mulc(zext(x, w), k))
            return r
    return _mk("zext", (a,), w)

def sext(a, w):
    if a.w == w: return a
    if a.w == 0: return ite(a, const(-1, w), const(0, w))
    if isc(a): return const(sval(a), w)
    if a.op == "sext": return sext(a.args[0], w)
    if a.op == "zext": return zext(a.args[0], w)
    if a.op == "ite":
        return ite(a.args[0], sext(a.args[1], w), sext(a.args[2], w))
    if known_zero_high(a) >= 1: return zext(a, w)
    return _mk("sext", (a,), w)

FACTS = {}     # term id -> inclusive upper bound (each one is also asserted as a hypothesis by the contract using it)

def known_zero_high(a):
    """number of high bits known to be zero"""
    u = FACTS.get(a.id)
    if u is not None: return a.w - u.bit_length()
    if a.op == "urem": return max(known_zero_high(a.args[1]), known_zero_high(a.args[0]))
    if a.op == "udiv": return known_zero_high(a.args[0])
    if isc(a): return a.w - a.x.bit_length()
    if a.op == "zext": return a.w - a.args[0].w + known_zero_high(a.args[0])
    if a.op == "ite": return min(known_zero_high(a.args[1]), known_zero_high(a.args[2]))
    if a.op == "bvand": return max(known_zero_high(a.args[0]), known_zero_high(a.args[1]))
    if a.op == "extract": return min(a.w, max(0, known_zero_high(a.args[0]) - (a.args[0].w - 1 - a.x[0])))
    if a.op == "bvor": return min(known_zero_high(a.args[0]), known_zero_high(a.args[1]))
    if a.op == "lin" :
        # only for pure small sums
        c, ks = a.x
        tot = c
        for x, k in zip(a.args, ks):
            tot += k * ((1 << (a.w - known_zero_high(x))) - 1)
        return max(0, a.w - tot.bit_length())
    if a.op == "concat":
        z = known_zero_high(a.args[0])
        return z if z < a.args[0].w else z + known_zero_high(a.args[1])
    return 0

def known_zero_low(a):
    if isc(a):
        return a.w if a.x == 0 else (a.x & -a.x).bit_length() - 1
    if a.op == "lin":
        c, ks = a.x
        r = a.w if c == 0 else (c & -c).bit_length() - 1
        for x, k in zip(a.args, ks):
            r = min(r, ((k & -k).bit_length() - 1) + known_zero_low(x))
        return min(r, a.w)
    if a.op == "ite": return min(known_zero_low(a.args[1]), known_zero_low(a.args[2]))
    if a.op == "zext":
        z = known_zero_low(a.args[0])
        return z if z < a.args[0].w else a.w
    if a.op == "concat":
        z = known_zero_low(a.args[1])
        return z if z < a.args[1].w else z + known_zero_low(a.args[0])
    if a.op == "bvand": return max(known_zero_low(a.args[0]), known_zero_low(a.args[1]))
    if a.op == "bvor": return min(known_zero_low(a.args[0]), known_zero_low(a.args[1]))
    return 0

def bvand(a, b):
    if a.w == 0: return and_(a, b)
    if isc(a): a, b = b, a
    if isc(b):
        if isc(a): return const(a.x & b.x, a.w)
        if b.x == 0: return b
        if b.x == (1 << a.w) - 1: return a
        # contiguous low mask -> zext(extract)
        if b.x & (b.x + 1) == 0:
            return zext(extract(a, b.x.bit_length() - 1, 0), a.w)
        # contiguous mask hi..lo
        lo = (b.x & -b.x).bit_length() - 1
        m = b.x >> lo
        if m & (m + 1) == 0:
            hi = b.x.bit_length() - 1
            return mulc(zext(extract(a, hi, lo), a.w), 1 << lo)
    r = _ite_lift2(bvand, a, b)
    if r is not None: return r
    if a is b: return a
    if a.id > b.id: a, b = b, a
    return _mk("bvand", (a, b), a.w)

def bvor(a, b):
    if a.w == 0: return or_(a, b)
    if isc(a): a, b = b, a
    if isc(b):
        if isc(a): return const(a.x | b.x, a.w)
        if b.x == 0: return a
        if b.x == (1 << a.w) - 1: return b
    if a is b: return a
    # disjoint bits -> add (canonical)
    if known_zero_high(a) + known_zero_low(b) >= a.w or known_zero_high(b) + known_zero_low(a) >= a.w:
        return add(a, b)
    if _disj(a, b): return add(a, b)
    r = _ite_lift2(bvor, a, b)
    if r is not None: return r
    if a.id > b.id: a, b = b, a
    return _mk("bvor", (a, b), a.w)

def _bits_may(a):
    """over-approximate mask of bits that may be one"""
    if isc(a): return a.x
    m = (1 << a.w) - 1
    if a.op == "lin":
        c, ks = a.x
        res = c; 
        for x, k in zip(a.args, ks):
            if k & (k - 1): 
                res = None; break
            xm = (_bits_may(x) * k)
            if xm >> a.w: xm &= m
            if res & xm: res = None; break
            res |= xm
        if res is not None: return res & m
    if a.op == "zext": return _bits_may(a.args[0])
    if a.op == "ite": return _bits_may(a.args[1]) | _bits_may(a.args[2])
    if a.op == "bvand": return _bits_may(a.args[0]) & _bits_may(a.args[1])
    if a.op in ("bvor", "bvxor"): return _bits_may(a.args[0]) | _bits_may(a.args[1])
    hz = known_zero_high(a); lz = known_zero_low(a)
    return (m >> hz) & ~((1 << lz) - 1) if hz < a.w else 0

def _disj(a, b):
    return _bits_may(a) & _bits_may(b) == 0

def bvxor(a, b):
    if a.w == 0: return not_(eq(a, b))
    if isc(a): a, b = b, a
    if isc(b):
        if isc(a): return const(a.x ^ b.x, a.w)
        if b.x == 0: return a
        if b.x == (1 << a.w) - 1: return bvnot(a)
    if a is b: return const(0, a.w)
    r = _ite_lift2(bvxor, a, b)
    if r is not None: return r
    if a.id > b.id: a, b = b, a
    return _mk("bvxor", (a, b), a.w)

def bvnot(a):
    if a.w == 0: return not_(a)
    return sub(const(-1, a.w), a)

def shl(a, b):
    if isc(b):
        if b.x >= a.w: return const(0, a.w)
        return mulc(a, 1 << b.x)
    return _mk("shl", (a, b), a.w)

def lshr(a, b):
    if isc(b):
        if b.x >= a.w: return const(0, a.w)
        if b.x == 0: return a
        return zext(extract(a, a.w - 1, b.x), a.w)
    return _mk("lshr", (a, b), a.w)

def ashr(a, b):
    if isc(b):
        s = min(b.x, a.w - 1)
        if s == 0: return a
        return sext(extract(a, a.w - 1, s), a.w)
    return _mk("ashr", (a, b), a.w)

# ---------------------------------------------------------------- comparisons
def eq(a, b):
    assert a.w == b.w, (a, b)
    if a is b: return TRUE
    if isc(a): a, b = b, a
    if isc(a) and isc(b): return const(a.x == b.x, 0)
    if a.w == 0:
        if isc(b): return a if b.x else not_(a)
        if a.op == "not" and b.op == "not": return eq(a.args[0], b.args[0])
        if a is not_(b): return FALSE
        if a.id > b.id: a, b = b, a
        return _mk("eq", (a, b), 0)
    if isc(b):
        if a.op == "ite":
            x, y = a.args[1], a.args[2]
            if isc(x) or isc(y):
                return ite(a.args[0], eq(x, b), eq(y, b))
        if a.op == "zext":
            if b.x >> a.args[0].w: return FALSE
            return eq(a.args[0], const(b.x, a.args[0].w))
        if a.op == "sext":
            c = const(b.x, a.args[0].w)
            if sext(c, a.w) is not b: return FALSE
            return eq(a.args[0], c)
    if a.op == "zext" and b.op == "zext" and a.args[0].w == b.args[0].w:
        return eq(a.args[0], b.args[0])
    d = sub(a, b)
    if isc(d): return const(d.x == 0, 0)
    c, m = lin_parts(d)
    # canonical: move to  sum == const with first coefficient positive
    if d.op == "lin":
        if len(m) == 1:
            (x, k), = m.items()
            if k == 1: 
                if x is not a or not isc(b): return eq(x, const(-c, a.w))
            elif k == (1 << a.w) - 1: return eq(x, const(c, a.w))
            elif x.op == "zext" and k * ((1 << x.args[0].w) - 1) < (1 << a.w):      # k*zext(y) does not wrap
                v = (-c) & ((1 << a.w) - 1)
                return eq(x, const(v // k, a.w)) if v % k == 0 else FALSE
        if len(m) >= 2:
            # no wrap-around: an integer equation, without a solution when the gcd of the coefficients does not divide the constant
            sg = lambda v: v - (1 << a.w) if v >> (a.w - 1) else v
            g = math.gcd(*[abs(sg(k)) for k in m.values()])
            if g > 1 and sg(c) % g and abs(sg(c)) + sum(abs(sg(k)) * ((1 << (a.w - known_zero_high(x))) - 1) for x, k in m.items()) < 1 << (a.w - 1): return FALSE
        if not (isc(b)):
            if len(m) == 2 and c == 0:
                (x, k), (y, l) = m.items()
                if k == 1 and l == (1 << a.w) - 1 or l == 1 and k == (1 << a.w) - 1:
                    if x.id > y.id: x, y = y, x
                    return _mk("eq", (x, y), 0)
            first = d.x[1][0]
            if first >> (a.w - 1): d = neg(d)
            c, m = lin_parts(d)
            return _mk("eq", (lin_make(0, m, a.w), const(-c, a.w)), 0)
    if a.id > b.id and not isc(b): a, b = b, a
    return _mk("eq", (a, b), 0)

def ne(a, b): return not_(eq(a, b))

def ult(a, b):
    assert a.w == b.w
    if a is b: return FALSE
    if isc(a) and isc(b): return const(a.x < b.x, 0)
    if isc(b) and b.x == 0: return FALSE
    if isc(b) and b.x == 1: return eq(a, const(0, a.w))
    if isc(a) and a.x == (1 << a.w) - 1: return FALSE
    if isc(a) and a.x == 0: return ne(b, a)
    if isc(b):
        n = a.w - known_zero_high(a)
        if b.x >> n: return TRUE
    if isc(a):
        n = b.w - known_zero_high(b)
        if (a.x >> n): return FALSE
    if a.op == "zext":
        if b.op == "zext" and b.args[0].w == a.args[0].w: return ult(a.args[0], b.args[0])
        if isc(b): return ult(a.args[0], const(b.x, a.args[0].w))
    if b.op == "zext" and isc(a): return ult(const(a.x, b.args[0].w), b.args[0])
    r = _ite_lift2(ult, a, b)
    if r is not None: return r
    return _mk("ult", (a, b), 0)

def ule(a, b): return not_(ult(b, a))
def ugt(a, b): return ult(b, a)
def uge(a, b): return not_(ult(a, b))

def slt(a, b):
    if a is b: return FALSE
    if isc(a) and isc(b): return const(sval(a) < sval(b), 0)
    if known_zero_high(a) >= 1 and known_zero_high(b) >= 1: return ult(a, b)
    r = _ite_lift2(slt, a, b)
    if r is not None: return r
    return _mk("slt", (a, b), 0)

def sle(a, b): return not_(slt(b, a))

_subst_cache = {}
def subst(t, m):
    """substitute terms (dict T->T) rebuilding with the smart constructors"""
    cache = {}
    def go(u):
        if u in m: return m[u]
        if not u.args: return u
        r = cache.get(u)
        if r is None:
            na = [go(a) for a in u.args]
            r = u if all(x is y for x, y in zip(na, u.args)) else rebuild(u, na)
            cache[u] = r
        return r
    return go(t)

def rebuild(u, na):
    op = u.op
    if op == "lin":
        r = const(u.x[0], u.w)
        for a, k in zip(na, u.x[1]): r = add(r, mulc(a, k))
        return r
    if op == "extract": return extract(na[0], *u.x)
    if op == "zext": return zext(na[0], u.w)
    if op == "sext": return sext(na[0], u.w)
    if op == "uf": return uf(u.x, na, u.w)
    if op.startswith("fp."): return fp(op, na, u.w, u.x)
    f = _BUILD.get(op)
    return f(*na)

def ite(c, a, b):
    assert a.w == b.w, (a.w, b.w)
    if isc(c): return a if c.x else b
    if a is b: return a
    if c.op == "not": return ite(c.args[0], b, a)
    if a.w == 0:
        if isc(a): return or_(c, b) if a.x else and_(not_(c), b)
        if isc(b): return or_(not_(c), a) if b.x else and_(c, a)
    if a.op == "ite" and a.args[0] is c: a = a.args[1]
    if b.op == "ite" and b.args[0] is c: b = b.args[2]
    if a is b: return a
    if c.op == "eq":
        p, q = c.args
        if (a is p and b is q) or (a is q and b is p): return b
        # conditional congruence: under p==q, a rewrites to b
        if a.w and _small(a) and _small(b) and not isc(q):
            if subst(a, {p: q}) is subst(b, {p: q}): 
                return b
    if b.op == "ite" and b.args[1] is a:          # c?a:(d?a:e)
        return ite(or_(c, b.args[0]), a, b.args[2])
    return _mk("ite", (c, a, b), a.w)

def _small(t, lim=60):
    seen = set(); st = [t]
    while st:
        u = st.pop()
        if u.id in seen: continue
        seen.add(u.id)
        if len(seen) > lim: return False
        st.extend(u.args)
    return True

def uf(name, args, w):
    return _mk("uf", tuple(args), w, name)

def select(arr, idx, w=8):
    return _mk("uf", (idx,), w, arr)

# ---------------------------------------------------------------- floating point (bits in, bits out)
def f2b(v, w):
    if w == 32:
        try: return struct.unpack("<I", struct.pack("<f", v))[0]
        except OverflowError: return 0x7f800000 if v > 0 else 0xff800000
    return struct.unpack("<Q", struct.pack("<d", v))[0]
def b2f(b, w):
    return struct.unpack("<f" if w == 32 else "<d", struct.pack("<I" if w == 32 else "<Q", b))[0]
def fconst(v, w=32): return const(f2b(v, w), w)

def _round_away(v):
    if math.isinf(v) or math.isnan(v): return v
    return math.copysign(float(math.floor(abs(v) + 0.5)) if abs(v) < 2**52 and (abs(v) - math.floor(abs(v))) >= 0.5 else float(math.floor(abs(v))), v)

def _fold(op, vals, w, x):
    import numpy as np
    fw = 32
    if op in ("fp.add", "fp.sub", "fp.mul", "fp.div"):
        ft = np.float32 if w == 32 else np.float64
        a, b = ft(vals[0]), ft(vals[1])
        with np.errstate(all="ignore"):
            r = {"fp.add": a + b, "fp.sub": a - b, "fp.mul": a * b, "fp.div": a / b}[op] if op != "fp.div" else np.divide(a, b)
        return const(f2b(float(r), w), w)
    return None

_FP_PRED = {"fp.lt", "fp.le", "fp.eq", "fp.isnan"}

def fp(op, args, w, x=None):
    """op in fp.add/sub/mul/div/rem, fp.neg, fp.abs, fp.round(x=mode), fp.sqrt, fp.lt/le/eq/isnan (w=0),
    fp.toui/tosi (w=int width), fp.fromui/fromsi, fp.cvt; argument width tells the float type."""
    args = tuple(args)
    if op in ("fp.fromui", "fp.fromsi") and not isc(args[0]):
        # the integer without its redundant high bits
        v = args[0]
        if op == "fp.fromsi" and v.op == "sext": v = v.args[0]
        z = known_zero_high(v) if v.op != "ite" else 0
        if op == "fp.fromsi" and z >= 1: op = "fp.fromui"
        if op == "fp.fromui" and 0 < z < v.w: v = trunc(v, v.w - z)
        args = (v,)
    if op == "fp.neg":
        a = args[0]
        s = extract(a, w - 1, w - 1)
        if isc(a): return const(a.x ^ (1 << (w - 1)), w)
        return bvxor(a, const(1 << (w - 1), w))
    if op == "fp.abs":
        return bvand(args[0], const((1 << (w - 1)) - 1, w))
    fw = args[0].w
    if all(isc(a) for a in args):
        if op in ("fp.fromui", "fp.fromsi"):
            v = args[0].x if op == "fp.fromui" else sval(args[0])
            import numpy as np
            return const(f2b(float(np.float32(v)) if w == 32 else float(v), w), w)
        vals = [b2f(a.x, a.w) for a in args]
        if op in _FP_PRED:
            if op == "fp.isnan": return const(math.isnan(vals[0]), 0)
            if any(math.isnan(v) for v in vals): return FALSE
            return const({"fp.lt": vals[0] < vals[1], "fp.le": vals[0] <= vals[1], "fp.eq": vals[0] == vals[1]}[op], 0) if op != "fp.isnan" else None
        r = None
        if not any(math.isnan(v) for v in vals):
            if op in ("fp.add", "fp.sub", "fp.mul", "fp.div"): r = _fold(op, vals, w, x)
            elif op == "fp.cvt":
                import numpy as np
                with np.errstate(all="ignore"):
                    r = const(f2b(float(np.float32(vals[0])) if w == 32 else vals[0], w), w)
            elif op == "fp.round" and math.isinf(vals[0]): r = args[0]
            elif op == "fp.round":
                v = vals[0]
                rv = {"RNA": _round_away, "RTN": lambda z: float(math.floor(z)), "RTP": lambda z: float(math.ceil(z)),
                      "RTZ": lambda z: float(math.trunc(z)), "RNE": lambda z: float(round(z))}[x](v)
                if rv == 0: rv = math.copysign(0.0, v)
                r = const(f2b(rv, w), w)
            elif op in ("fp.toui", "fp.tosi") and not math.isinf(vals[0]):
                iv = math.trunc(vals[0])
                lo, hi = (0, (1 << w) - 1) if op == "fp.toui" else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
                if lo <= iv <= hi: r = const(iv, w)
        if r is not None: return r
    if op in ("fp.isnan", "fp.lt", "fp.le") and fw in (32, 64):
        r = [_fprange(a) for a in args]
        if all(v is not None for v in r):
            if op == "fp.isnan": return FALSE
            (al, ah), (bl, bh) = r
            if op == "fp.lt":
                if ah < bl: return TRUE
                if al >= bh: return FALSE
            else:
                if ah <= bl: return TRUE
                if al > bh: return FALSE
    # distribute over ite when the other argument is constant
    for i, a in enumerate(args):
        if a.op == "ite" and all(isc(b) for j, b in enumerate(args) if j != i) and _idepth(a) <= 8:
            na = list(args)
            na[i] = a.args[1]; p = fp(op, na, w, x)
            na[i] = a.args[2]; q = fp(op, na, w, x)
            return ite(a.args[0], p, q)
    if op == "fp.sub" and isc(args[1]) and not math.isnan(b2f(args[1].x, fw)): return fp("fp.add", [args[0], const(args[1].x ^ (1 << (fw - 1)), fw)], w, x)
    if op in ("fp.mul", "fp.add", "fp.eq") and args[0].id > args[1].id: args = (args[1], args[0])
    return _mk(op, args, w, x)

_FPR = {}
FPFACTS = {}        # term id -> (lo, hi): assumed bounds of a floating-point value that is a number
UF_RANGE = {}       # name of a function -> bounds of its result from the bounds of its arguments (a contract)
_F32MAX = 3.4028234663852886e38
def _fprange(t, depth=0):
    """bounds of a floating-point value that is certainly not NaN, or None (rounding is monotone, so the corners bound the results)"""
    if t.w not in (32, 64) or depth > 24: return None
    k = t.id
    if k in FPFACTS: return FPFACTS[k]
    if k in _FPR: return _FPR[k]
    rnd = (lambda v: v) if t.w == 64 else _r32
    r = None
    if isc(t):
        v = b2f(t.x, t.w); r = None if math.isnan(v) else (v, v)
    elif t.op in ("fp.fromui", "fp.fromsi"):
        a = t.args[0]
        if a.w <= 53:
            r = (0.0, float((1 << a.w) - 1)) if t.op == "fp.fromui" else (-float(1 << (a.w - 1)), float((1 << (a.w - 1)) - 1))
            if t.op == "fp.fromui" and a.op == "zext": r = (0.0, float((1 << a.args[0].w) - 1))
            elif t.op == "fp.fromui" and a.op == "concat" and isc(a.args[0]) and a.args[0].x == 0: r = (0.0, float((1 << a.args[1].w) - 1))
            r = (rnd(r[0]), rnd(r[1]))
    elif t.op == "fp.cvt" and t.args[0].w in (32, 64):
        p = _fprange(t.args[0], depth + 1)
        if p: r = (rnd(p[0]), rnd(p[1]))
    elif t.op == "ite":
        p, q = _fprange(t.args[1], depth + 1), _fprange(t.args[2], depth + 1)
        if p and q: r = (min(p[0], q[0]), max(p[1], q[1]))
    elif t.op == "fp.sqrt":
        p = _fprange(t.args[0], depth + 1)
        if p and p[0] >= 0 and math.isfinite(p[1]): r = (rnd(math.sqrt(p[0])), rnd(math.sqrt(p[1])))
    elif t.op == "uf" and t.x in UF_RANGE:
        p = [_fprange(a, depth + 1) for a in t.args]
        if all(p): r = UF_RANGE[t.x](p)
    elif t.op in ("fp.add", "fp.sub", "fp.mul", "fp.div") and t.args[0].w == t.w:
        p, q = _fprange(t.args[0], depth + 1), _fprange(t.args[1], depth + 1)
        if p and q and all(math.isfinite(v) for v in p + q) and not (t.op == "fp.div" and q[0] <= 0.0 <= q[1]):
            f = {"fp.add": lambda a, b: a + b, "fp.sub": lambda a, b: a - b, "fp.mul": lambda a, b: a * b, "fp.div": lambda a, b: a / b}[t.op]
            try: c = [rnd(f(a, b)) for a in p for b in q]
            except OverflowError: c = []
            if c and t.op == "fp.mul" and t.args[0] is t.args[1]: c = [max(v, 0.0) for v in c]
            if c and all(math.isfinite(v) for v in c): r = (min(c), max(c))
    _FPR[k] = r
    return r
def _r32(v):
    import numpy as np
    with np.errstate(all="ignore"): return float(np.float32(v))

def _idepth(a):
    n = 0; st = [a]
    while st:
        u = st.pop()
        if u.op == "ite":
            n += 1
            if n > 8: return n
            st.append(u.args[1]); st.append(u.args[2])
    return n

_BUILD = {"not": not_, "and": and_, "or": or_, "mul": mul, "udiv": udiv, "urem": urem, "sdiv": sdiv,
          "srem": srem, "concat": concat, "bvand": bvand, "bvor": bvor, "bvxor": bvxor, "shl": shl,
          "lshr": lshr, "ashr": ashr, "eq": eq, "ult": ult, "slt": slt, "ite": ite}

def variables(t):
    seen = set(); out = {}
    st = [t]
    while st:
        u = st.pop()
        if u.id in seen: continue
        seen.add(u.id)
        if u.op == "var": out[u.x] = u
        st.extend(u.args)
    return out
