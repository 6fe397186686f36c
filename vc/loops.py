"""The loop rule: an unbounded loop is replaced by its invariant, derived from the current code and proved.

For a loop with iteration counter k the rule
  1. finds which values the loop changes (phis and memory cells) by executing the body on symbols (fixpoint);
     values with a constant step get the closed form init + step*k (their invariant), all others are havocked;
  2. finds the trip count from the exit condition;
  3. executes the body once for an arbitrary k < trip count: every obligation of the body is thereby proved for
     every iteration;
  4. after the loop, memory holds the state before it plus "for each k below the bound: the writes of iteration k".
     That description is only right when no iteration reads or overwrites what another one wrote: both are
     obligations ("loop frame").
Events of the body become a LoopEv.  There is no bound on the number of iterations anywhere."""
from . import term as T
from . import execu as X

def is_ptr(v): return isinstance(v, X.Ptr)

def sub_val(v, m):
    if v is None or isinstance(v, (int, str, X.Opaque)): return v
    if isinstance(v, T.T): return T.subst(v, m)
    if isinstance(v, X.Ptr): return X.norm_ptr([(T.subst(c, m), sub_base(b, m), T.subst(o, m)) for c, b, o in v.cases])
    if isinstance(v, tuple): return tuple(sub_val(x, m) for x in v)
    return v
def sub_base(b, m):
    if b is None or not b.idx: return b
    return X.Base(b.name, [T.subst(i, m) for i in b.idx], b.size, b.ty)
def sub_write(w, m):
    r = X.Write(T.subst(w.guard, m), tuple(T.subst(i, m) for i in w.idx), T.subst(w.off, m), w.size, sub_val(w.val, m))
    r.ks = tuple((k, T.subst(b, m)) for k, b in w.ks)
    return r
def sub_ev(e, m):
    if isinstance(e, X.LoopEv):
        return X.LoopEv(e.k, T.subst(e.n, m), [sub_ev(x, m) for x in e.body], T.subst(e.guard, m), e.name, e.early)
    r = X.Event(e.name, sub_val(e.args, m), T.subst(e.guard, m), sub_val(e.res, m)); return r

def occurs(t, k):
    return k in T.variables(t) if hasattr(T, "variables") else False

_vars_cache = {}
def has_var(t, k):
    key = (t.id, k.id)
    r = _vars_cache.get(key)
    if r is None:
        r = False; seen = set(); st = [t]
        while st:
            u = st.pop()
            if u.id in seen: continue
            seen.add(u.id)
            if u is k: r = True; break
            st.extend(u.args)
        _vars_cache[key] = r
    return r

def affine(t, k):
    """t = a*k' + rest with k' = k or zext(k), rest free of k -> (a, rest, k') or None"""
    c, d = T.lin_parts(t)
    a = None; rest = T.const(c, t.w); kk = None
    for x, n in d.items():
        if not has_var(x, k): rest = T.add(rest, T.mulc(x, n)); continue
        if x is k or (x.op == "zext" and x.args[0] is k):
            if a is not None: return None
            a = n; kk = x
        else: return None
    if a is None: return None
    if a >= 1 << (t.w - 1): a -= 1 << t.w
    return a, rest, kk

def nested(t, k):
    """t = a*zext(e) + rest with e = +-k + rest' -> ((a, rest, zext(e)), (+-1, rest', width of e)) or None"""
    c, d = T.lin_parts(t)
    xs = [(x, n) for x, n in d.items() if has_var(x, k)]
    if len(xs) != 1 or xs[0][0].op != "zext": return None
    x, n = xs[0]; f = affine(x.args[0], k)
    if f is None or f[0] not in (1, -1) or f[2] is not k: return None
    rest = T.const(c, t.w)
    for y, m in d.items():
        if y is not x: rest = T.add(rest, T.mulc(y, m))
    if n >= 1 << (t.w - 1): n -= 1 << t.w
    return (n, rest, x), (f[0], f[1], x.args[0].w)

def divc(t, a):
    """(quotient, remainder constant) if every coefficient is divisible by a, else None"""
    c, d = T.lin_parts(t)
    w = t.w; half = 1 << (w - 1)
    s = lambda v: v - (1 << w) if v >= half else v
    if any(s(n) % a for n in d.values()): return None
    c = s(c)
    q = T.const((c // a) & ((1 << w) - 1), w)
    for x, n in d.items(): q = T.add(q, T.mulc(x, (s(n) // a) & ((1 << w) - 1)))
    return q, c % a

def fit(t, w):
    if t.w == w: return t
    if t.w > w:
        if t.op == "zext" and t.args[0].w == w: return t.args[0]
        return T.trunc(t, w)
    return T.zext(t, w)

def solve(w, base, off, size):
    """instance of the parametrised write w that covers [off,off+size) of base.
    -> None (no instance can), or (cond, value-substitution, delta); raises Unsupported when it cannot be solved"""
    m = {}; cond = []
    todo = [k for k, _ in w.ks]
    eqs = list(zip(w.idx, base.idx))
    progress = True
    offdone = False; delta = 0
    while todo and progress:
        progress = False
        for k in list(todo):
            for a, b in eqs:
                a2 = T.subst(a, m)
                if any(has_var(a2, j) for j in todo if j is not k) or not has_var(a2, k): continue
                f = affine(a2, k)
                if f is None: continue
                co, rest, kk = f
                t = T.sub(b, rest)
                if co == 1: v = t
                elif co == -1: v = T.neg(t)
                else:
                    q = divc(t, abs(co)) 
                    if q is None: v = T.udiv(t, T.const(abs(co), t.w))
                    elif q[1]: return None
                    else: v = q[0]
                    if co < 0: v = T.neg(v)
                m[k] = fit(v, k.w); todo.remove(k); progress = True
                break
            else:
                o2 = T.subst(w.off, m)
                if offdone or not has_var(o2, k) or any(has_var(o2, j) for j in todo if j is not k): continue
                f = affine(o2, k); inner = None
                if f is None:
                    f = nested(o2, k)
                    if f is None: continue
                    f, inner = f
                co, rest, kk = f
                t = T.sub(off, rest)
                if co == -1: v = T.neg(t); 
                elif co == 1: v = t
                else:
                    neg = co < 0; co = abs(co)
                    q = divc(T.neg(t) if neg else t, co)
                    if q is None: v = T.udiv(T.neg(t) if neg else t, T.const(co, t.w))
                    else:
                        v, r = q
                        if neg: r = -r % co if r else 0
                        if neg and r: raise X.Unsupported("descending access")
                        if r:
                            if r + size <= w.size: delta = r
                            elif r >= w.size and r + size <= co: return None
                            else: raise X.Unsupported("undetermined overlap")
                if inner is not None:
                    ic, irest, iw = inner
                    v = T.sub(fit(v, iw), irest)
                    if ic == -1: v = T.neg(v)
                m[k] = fit(v, k.w); todo.remove(k); progress = True; offdone = True
    if len(todo) == 2 and not offdone:
        # off = co1*k1 + co2*k2 + rest with 0 <= k2 < n2, co2*n2 <= co1: quotient and remainder determine k1 and k2
        o2 = T.subst(w.off, m); bnd = dict(w.ks)
        for k1, k2 in (tuple(todo), tuple(reversed(todo))):
            n2 = T.subst(bnd[k2], m); c, d = T.lin_parts(o2); co = {}
            for x, n in d.items():
                for k in (k1, k2):
                    if x is k or x.op == "zext" and x.args[0] is k: co[k] = None if k in co else (n, x)
            if len([x for x in d if has_var(x, k1) or has_var(x, k2)]) != 2 or None in co.values() or len(co) != 2 or not T.isc(n2): continue
            (a1, x1), (a2, x2) = co[k1], co[k2]
            if not 0 < a1 < 1 << 20 or not 0 < a2 * n2.x <= a1 or w.size > a2 or T.known_zero_high(x1) < 24 or has_var(T.subst(bnd[k1], m), k2): continue
            rest = T.sub(T.sub(o2, T.mulc(x1, a1)), T.mulc(x2, a2)); q = divc(T.sub(off, rest), a1)
            if q is None: continue
            q, r = q; v2 = r // a2; delta = r - v2 * a2
            if v2 >= n2.x: raise X.Unsupported("undetermined overlap in two nested loops")
            if delta and delta + size > w.size:
                if delta >= w.size and delta + size <= a2: return None
                raise X.Unsupported("undetermined overlap in two nested loops")
            m[k1] = fit(q, k1.w); m[k2] = T.const(v2, k2.w); todo = []; break
    if todo: raise X.Unsupported("cannot invert the access pattern of a loop")
    for a, b in eqs: cond.append(T.eq(T.subst(a, m), b))
    o = T.subst(w.off, m)
    d = T.sub(off, o)
    if T.isc(d):
        delta = T.sval(d)
        if delta >= w.size or delta <= -size: return None
        if delta < 0 or delta + size > w.size: raise X.Unsupported("undetermined overlap")
    else:
        if w.size != size: raise X.Unsupported("undetermined overlap in a loop")
        cond.append(T.eq(o, off)); delta = 0
    for k, b in w.ks: cond.append(T.ult(m[k], T.subst(b, m)))
    cond.append(T.subst(w.guard, m))
    return T.and_(*cond), m, delta

def closed(init, delta, k):
    w = init.w
    kk = k if k.w == w else (T.zext(k, w) if k.w < w else T.trunc(k, w))
    return T.add(init, T.mulc(kk, delta & ((1 << w) - 1)))

def trip_of(ex, st, c, k):
    """number of the first iteration where the continue condition c(k) is false"""
    w = k.w
    def lin(e):
        if e.op == "zext" and has_var(e, k) and e.args[0].w == w:
            f = affine(e.args[0], k)
            if f: return f[0], f[1], e.w
        f = affine(e, k)
        if f is None: return None
        return f[0], f[1], e.w
    def narrow(N, i0):
        """N compared with a zero-extended counter: must fit"""
        if N.w > w:
            ex.oblige(st, "loop: the bound fits the counter", T.ult(N, T.const(1 << w, N.w)), "loop")
            N = fit(N, w)
        return N, fit(i0, w)
    neg = False
    if c.op == "not": neg = True; c = c.args[0]
    if c.op == "ult":
        a, b = c.args
        if not neg and a.op == "extract" and a.x[1] == 0 and a.w < w and has_var(a, k) and not has_var(b, k):      # the low bits of the counter
            f = affine(a.args[0], k)
            if f and f[0] == 1:
                i0 = fit(f[1], a.w); return T.ite(T.ult(i0, b), T.zext(T.sub(b, i0), w), T.const(0, w))
        if not neg and has_var(a, k) and not has_var(b, k):           # e < N
            f = lin(a)
            if f and f[0] == 1:
                N, i0 = narrow(b, f[1]) if f[2] > w or b.w > w else (b, f[1])
                return T.ite(T.ult(i0, N), T.sub(N, i0), T.const(0, w))
            if f and f[0] > 1 and b.w == w:
                N, i0, s = b, f[1], f[0]
                ex.oblige(st, "loop: the counter does not wrap", T.ule(N, T.const((1 << w) - s, w)), "loop")
                return T.ite(T.ult(i0, N), T.udiv(T.add(T.sub(N, i0), T.const(s - 1, w)), T.const(s, w)), T.const(0, w))
        if neg and has_var(b, k) and not has_var(a, k):               # not (N < e)  <=>  e <= N
            f = lin(b)
            if f and f[0] == 1 and a.w == w:
                ex.oblige(st, "loop: the counter does not wrap", T.ult(a, T.const((1 << w) - 1, w)), "loop")
                return T.ite(T.ule(f[1], a), T.add(T.sub(a, f[1]), T.const(1, w)), T.const(0, w))
        if not neg and has_var(b, k) and not has_var(a, k):           # N < e  descending
            f = lin(b)
            if f and f[0] == -1 and a.w == w:
                return T.ite(T.ult(a, f[1]), T.sub(f[1], a), T.const(0, w))
        if neg and has_var(a, k) and not has_var(b, k):               # not (e < N)  descending e >= N
            f = lin(a)
            if f and f[0] == -1 and b.w == w:
                ex.oblige(st, "loop: the counter does not wrap", T.ne(b, T.const(0, w)), "loop")
                return T.ite(T.ule(b, f[1]), T.add(T.sub(f[1], b), T.const(1, w)), T.const(0, w))
    if c.op == "slt" and not neg:
        a, b = c.args
        if has_var(a, k) and not has_var(b, k) and a.w == w:
            f = lin(a)
            if f and f[0] == 1: return T.ite(T.slt(f[1], b), T.sub(b, f[1]), T.const(0, w))
    if c.op == "eq" and neg:
        a, b = c.args
        if not has_var(a, k): a, b = b, a
        if has_var(a, k) and not has_var(b, k):
            f = lin(a)
            if f:
                s, i0, ew = f
                if ew != w:
                    if s == 1: 
                        N, i0 = narrow(b, i0); return T.sub(N, i0)
                else:
                    d = T.sub(b, i0) if s > 0 else T.sub(i0, b)
                    s = abs(s)
                    if s == 1: return d
                    q = divc(d, s)
                    if q is not None and q[1] == 0: return q[0]
                    ex.oblige(st, "loop: the end is reached exactly", T.eq(T.urem(d, T.const(s, w)), T.const(0, w)), "loop")
                    return T.udiv(d, T.const(s, w))
    raise X.Unsupported("exit condition of the loop: " + T.show(c, 3)[:160])

def guess_steps(fr, header, L):
    """phi -> constant step in bytes / units, read off the instruction that computes the next value"""
    out = {}; defs = {}
    for b in L:
        for i in fr.f.blocks[b]:
            if i.res: defs[i.res] = i
    latch = [b for b in L if header in fr.cfg.succ[b]]
    if len(latch) != 1: return out
    for p in fr.f.blocks[header]:
        if p.op != "phi": break
        src = [v for v, b in p.a[0] if b == latch[0]]
        if len(src) != 1 or src[0][0] != "l": continue
        d = defs.get(src[0][1])
        if d is None: continue
        try:
            if d.op == "getelementptr":
                ops = d.a[0]
                if len(ops) == 2 and ops[0][1] == ("l", p.res) and ops[1][1][0] == "int": out[p.res] = ops[1][1][1]*fr.mod.size(d.ty)
            elif d.op == "add" and p.ty[0] == "int":
                a, b = d.a[0], d.a[1]
                if a == ("l", p.res) and b[0] == "int": c = b[1]; w = p.ty[1]; c &= (1 << w) - 1; out[p.res] = c - (1 << w) if c >> (w - 1) else c
        except Exception: pass
    return {p: c for p, c in out.items() if c}

_kn = [0]
def rule(ex, fr, header, L, m, lid):
    pre, phis = m
    if pre.pc is T.FALSE: return []
    depth = len(X.ACTIVE)
    def quiet(fn):
        so = ex.obs; ex.obs = []; fa = list(ex.foralls)
        rets = fr.rets; fr.rets = []
        rr = ex.reads; ex.reads = None
        try: return fn()
        finally: ex.obs = so; fr.rets = rets; ex.reads = rr; ex.foralls[:] = fa
    env0 = dict(fr.env)
    # ---- phase A: what does the body change
    _kn[0] += 1
    tag = "L%d" % _kn[0]
    syms = {}
    for p, v in phis.items():
        if isinstance(v, T.T): syms[p] = T.var("%s.%s" % (tag, p), v.w)
        elif is_ptr(v):
            if len(v.cases) != 1: raise X.Unsupported("loop-carried pointer with several targets")
            b, o = v.single()
            syms[p] = X.Ptr([(T.TRUE, b, T.var("%s.%s" % (tag, p), 64))])
        else: raise X.Unsupported("loop-carried value")
    cells = {}      # (region, off, size) -> (init, symbol)
    ghosts = {}
    tolog = set()
    # what the counters look like from the text of the loop (a guess that phase A confirms), and the loop condition it gives:
    # the body is only ever executed under that condition
    guess = {}; kg = None; gcond = T.TRUE
    steps = guess_steps(fr, header, L)
    gw = [v.w for p, v in phis.items() if p in steps and isinstance(v, T.T)] + [64 for p, v in phis.items() if p in steps and is_ptr(v)]
    for kw0 in ([] if not gw or not ex.opts.get("guess", True) else [32] if all(x <= 32 for x in gw) else [64, 32] if any(x == 32 for x in gw) else [64]):
        kg = T.var("%s.k%s" % (tag, "" if kw0 == max(gw) or kw0 == 64 else "n"), kw0); guess = {}
        try:
            for p, v in phis.items():
                if p not in steps: continue
                if isinstance(v, T.T): guess[p] = closed(v, steps[p], kg)
                elif is_ptr(v): b, o = v.single(); guess[p] = X.Ptr([(T.TRUE, b, closed(o, steps[p], kg))])
            ph0 = dict(syms); ph0.update(guess)
            def head():
                s0 = pre.fork(); return ex.run_region(fr, header, {header}, [(None, header, s0, ph0)])
            X.ACTIVE.append(kg)
            try: _, hout = quiet(head)
            finally: X.ACTIVE.pop()
            fr.env.clear(); fr.env.update(env0)
            g = T.or_(*[X.strip_common(e[2].pc, pre.pc)[0] for e in hout if e[1] not in L])
            if hout and has_var(g, kg) and T.not_(g).op != "and":
                gcond = T.ult(kg, quiet(lambda: trip_of(ex, pre, T.not_(g), kg)))
        except X.Unsupported: guess = {}; gcond = T.TRUE
        if gcond is T.TRUE: guess = {}
        fr.env.clear(); fr.env.update(env0)
        if guess: break
    syms.update(guess)
    for it in range(12):
        s0 = pre.fork(); s0.pc = T.and_(s0.pc, gcond)
        for n in tolog: as_log(ex, s0, n)
        for (n, o, sz), (iv, sy) in cells.items(): ex.write(s0, X.Base(n), T.const(o, 64), sz, sy)
        for g, (iv, sy) in ghosts.items(): s0.ghost[g] = sy
        ent = {n: r for n, r in s0.mem.items()}
        def go():
            back, exits = ex.run_region(fr, header, L, [(None, header, s0, dict(syms))])
            return back
        X.ACTIVE.append(kg if guess else T.var(tag + ".kA", 64))
        try: back = quiet(go)
        finally: X.ACTIVE.pop()
        fr.env.clear(); fr.env.update(env0)
        if not back: break
        bm = ex.merge([(e[2], e[3]) for e in back])
        if bm is None: back = []; break
        bs, bp = bm
        new = False
        for n, r in bs.mem.items():
            if n not in pre.mem and (n.startswith("alloca") ): continue
            r0 = ent.get(n)
            if r is r0: continue
            if r.log is not None:
                if r0 is None: continue
                if r0.log is None and n not in tolog: tolog.add(n); new = True
                continue
            for o, (sz, v) in r.cells.items():
                old = None if r0 is None else r0.cells.get(o)
                if old is not None and old[0] == sz and same_val(old[1], v): continue
                if (n, o, sz) in cells: continue
                try: iv = ex.read(pre, X.Base(n), T.const(o, 64), sz, ("ptr",) if is_ptr(v) else ("int", 8 * sz))
                except X.Unsupported: iv = None
                if old is None and n not in pre.mem and not n.startswith(("heap", "ret", "tex", "a:")) and iv is None: continue
                sy = symbol_like(iv if iv is not None else v, "%s.%s+%d" % (tag, n, o))
                if is_ptr(v) and is_ptr(iv) and not (len(v.cases) == 1 and len(iv.cases) == 1 and X.same_base(v.cases[0][1], iv.cases[0][1])):
                    sy = X.Opaque("loop-varying pointer %s+%d" % (n, o))
                cells[(n, o, sz)] = (iv, sy); new = True
        for g, v in bs.ghost.items():
            if g in ghosts or same_val(pre.ghost.get(g), v): continue
            if not isinstance(v, T.T): 
                if g not in pre.ghost: continue
                raise X.Unsupported("ghost %s changed in a loop" % g)
            if g not in pre.ghost: continue
            ghosts[g] = (pre.ghost[g], T.var("%s.ghost.%s" % (tag, g), v.w)); new = True
        if not new: break
    else: raise X.Unsupported("loop analysis does not converge: %s #%d" % lid)
    # ---- closed forms
    if back and guess and any(delta_of(bp[p], syms[p]) != steps[p] for p in guess): raise X.Unsupported("the step of a loop counter is not the one in the text (%s #%d)" % lid)
    widths = []
    if back:
        for p, v in phis.items():
            d = delta_of(bp[p], syms[p])
            if d is not None and d != 0 and isinstance(v, T.T): widths.append(v.w)
            if d is not None and d != 0 and is_ptr(v): widths.append(64)
    kw = 32 if widths and all(w <= 32 for w in widths) else 64
    if guess: kw = kg.w
    k = kg if guess else T.var("%s.k" % tag, kw)
    def step_of(cur, sy):
        """the change per iteration: a constant, or a term that no value of this loop occurs in (None otherwise)"""
        d = delta_of(cur, sy)
        if d is not None or isinstance(cur, X.Opaque) or isinstance(sy, X.Opaque): return d
        if isinstance(cur, T.T) and isinstance(sy, T.T) and cur.w: d = T.sub(cur, sy)
        elif isinstance(cur, X.Ptr) and isinstance(sy, X.Ptr) and len(cur.cases) == 1 and len(sy.cases) == 1 and X.same_base(cur.cases[0][1], sy.cases[0][1]): d = T.sub(cur.cases[0][2], sy.cases[0][2])
        else: return None
        return None if apps([d], lambda t: t.op == "var" and str(t.x).startswith(tag + ".") or t.op == "uf" and str(t.x).startswith(tag + ".")) else d
    def ghost_form(g, init, cur, sy):
        """a boolean ghost: constant from the second iteration on when the path that goes on implies it"""
        if back and isinstance(init, T.T) and init.w == 0:
            c = ex.decide(bs, cur)
            if c is not None:
                c = T.TRUE if c else T.FALSE; i = ex.decide(pre, init)
                if i is not None: init = T.TRUE if i else T.FALSE
                return init if init is c else T.ite(T.eq(k, T.const(0, kw)), init, c)
        return form(init, cur, sy, "ghost." + g)
    def form(init, cur, sy, name):
        if init is None: return None
        d = step_of(cur, sy) if back else 0
        if isinstance(d, int) and d == 0: return init
        if name in guess and kw == kg.w: return guess[name]
        if isinstance(d, T.T):
            kk = lambda w: k if k.w == w else (T.zext(k, w) if k.w < w else T.trunc(k, w))
            if isinstance(init, T.T): return T.add(init, T.mul(kk(init.w), d))
            if is_ptr(init): b, o = init.single(); return X.Ptr([(T.TRUE, b, T.add(o, T.mul(kk(64), d)))])
        if isinstance(init, T.T):
            if d is None or not init.w: return T.uf("%s.%s" % (tag, name), [k] + X.ACTIVE[:depth], init.w)
            return closed(init, d, k)
        if is_ptr(init):
            if d is None: return X.Opaque("loop-varying pointer " + name)
            b, o = init.single(); return X.Ptr([(T.TRUE, b, closed(o, d, k))])
        return X.Opaque("loop-varying " + name)
    pk = {p: form(v, bp[p] if back else None, syms[p], p) for p, v in phis.items()}
    ck = {}
    for (n, o, sz), (iv, sy) in cells.items():
        cur = None
        if back:
            r = bs.mem.get(n)
            cur = r.cells.get(o) if r is not None and r.log is None else None
            cur = cur[1] if cur is not None and cur[0] == sz else None
        ck[(n, o, sz)] = form(iv, cur, sy, "%s+%d" % (n, o)) if cur is not None and not isinstance(sy, X.Opaque) else (T.uf("%s.%s+%d" % (tag, n, o), [k] + X.ACTIVE[:depth], 8 * sz) if not is_ptr(iv) and iv is not None else X.Opaque("loop-varying cell %s+%d" % (n, o)))
    gk = {g: ghost_form(g, iv, bs.ghost.get(g) if back else None, sy) for g, (iv, sy) in ghosts.items()}
    hints = ex.loop_contracts.get(lid) or ex.loop_contracts.get(lid[0])
    def entry(pc):
        s = pre.fork()
        for n in tolog: as_log(ex, s, n)
        for (n, o, sz), v in ck.items(): 
            if v is not None: ex.write(s, X.Base(n), T.const(o, 64), sz, v)
        for g, v in gk.items(): s.ghost[g] = v
        s.pc = pc
        return s
    # ---- trip count
    X.ACTIVE.append(k)
    try:
        def probe(): return ex.run_region(fr, header, {header} if guess else L, [(None, header, entry(pre.pc), dict(pk))])
        back, exits = quiet(probe)
        envp = dict(fr.env)
        fr.env.clear(); fr.env.update(env0)
        hx = [e for e in exits if e[0] == header and e[1] not in L]
        trip = None; kind = None
        if len(hx) > 1: raise X.Unsupported("several exits of a loop header")
        if hx:
            g = T.or_(*[X.strip_common(e[2].pc, pre.pc)[0] for e in hx])
            if not has_var(g, k):
                if not back: pass
                else: raise X.Unsupported("loop exit does not depend on the counter: %s #%d" % lid)
            else:
                cc = T.not_(g); extra = []
                parts = list(cc.args) if cc.op == "and" else [cc]
                for p in parts:
                    try: trip = trip_of(ex, pre, p, k); kind = "head"; break
                    except X.Unsupported as e: err = e
                if trip is None and ex.opts.get("free_loops"): parts = []      # any number of iterations (partial correctness)
                elif trip is None: raise X.Unsupported("%s (%s #%d)" % (err, lid[0], lid[1]))
                if len(parts) > 1: raise X.Unsupported("compound loop condition in %s" % (lid[0],))
        if trip is None:
            # exit at the end of the iteration
            latches = {e[0] for e in back}
            lx = [e for e in exits if e[0] in latches]
            if lx and len(latches) == 1:
                bpc = T.or_(*[e[2].pc for e in back])
                xpc = T.or_(*[e[2].pc for e in lx])
                g, _ = X.strip_common(xpc, bpc)
                try: trip = trip_of(ex, pre, T.not_(g), k); kind = "latch"
                except X.Unsupported: trip = None
        run_pc = pre.pc
        T.FACTS.pop(k.id, None)
        if trip is not None:
            if ex.opts.get("counter_facts") and T.known_zero_high(trip): T.FACTS[k.id] = (1 << (kw - T.known_zero_high(trip))) - (1 if kind == "head" else 0)
            bound = trip if kind == "head" else T.add(trip, T.const(1, kw))
            run_pc = T.and_(pre.pc, T.ult(k, trip) if kind == "head" else T.ule(k, trip))
        else: bound = None
        # ---- phase B: one arbitrary iteration
        reads0 = ex.reads; ex.reads = []
        s0 = entry(run_pc)
        ent = dict(s0.mem); nlog = {n: len(r.log) for n, r in ent.items() if r.log is not None}
        ntr = len(s0.trace); nas = len(s0.assume)
        back, exits = ex.run_region(fr, header, L, [(None, header, s0, dict(pk))])
        reads = ex.reads; ex.reads = reads0
        if ex.reads is not None: ex.reads += reads
        env1 = dict(fr.env)
        if kind == "head":        # the exit edge of the header is only reachable when k is the trip count
            exits = hx + [e for e in exits if e[0] != header]
            env1 = envp
    finally: X.ACTIVE.pop()
    bm = ex.merge([(e[2], e[3]) for e in back]) if back else None
    bs = bm[0] if bm else None
    delta = {}
    if bs is not None:
        for n, r in bs.mem.items():
            if r.log is None: continue
            n0 = nlog.get(n, 0)
            if len(r.log) > n0: delta[n] = r.log[n0:]
    def par(n, bnd):
        out = []
        for w in delta.get(n, ()):
            q = X.Write(w.guard, w.idx, w.off, w.size, w.val); q.ks = ((k, bnd),) + tuple(w.ks); q.facts = w.facts
            if bs is not None:
                q.facts = tuple(w.facts) + tuple(a for a in bs.assume[nas:] if has_var(a, k))[:20]
            out.append(q)
        return out
    # ---- loop frame obligations
    if bs is not None and ex.opts.get("loop_frame", True):
        k2 = T.var("%s.k2" % tag, kw)
        def rename(w):
            mm = {k: k2}
            for j, (kk, b) in enumerate(w.ks): mm[kk] = T.var("%s.i%d.%d" % (tag, j, kk.id), kk.w)
            w2 = X.Write(T.subst(w.guard, mm), tuple(T.subst(i, mm) for i in w.idx), T.subst(w.off, mm), w.size, None)
            g = [w2.guard] + [T.ult(mm[kk], T.subst(b, mm)) for kk, b in w.ks]
            return w2, T.and_(*g)
        def apart(idx, off, size, w2):
            if len(idx) != len(w2.idx): return T.TRUE
            d = T.sub(off, w2.off)
            far = T.and_(T.uge(d, T.const(w2.size, 64)), T.ule(d, T.const((1 << 64) - size, 64)))
            return T.or_(*[T.ne(a, b) for a, b in zip(idx, w2.idx)], far)
        base_h = [T.ult(k2, bound)] if bound is not None else []
        seen = set()
        for rb, ro, rs, rpc in reads:
            for w in delta.get(rb.name, ()):
                if len(w.idx) != len(rb.idx): continue
                w2, g = rename(w)
                goal = T.or_(T.not_(g), apart(rb.idx, ro, rs, w2))
                key = (goal.id, rpc.id)
                if goal is T.TRUE or key in seen: continue
                seen.add(key)
                s = pre.fork(); s.pc = T.and_(rpc, T.ult(k2, k), *base_h)
                ex.oblige(s, "loop frame: no iteration reads what an earlier one wrote (%s)" % rb.name.split("#")[0], goal, "loop")
        for n, ws in delta.items():
            for i, w in enumerate(ws):
                for w1 in ws[i:]:
                    if len(w1.idx) != len(w.idx): continue
                    w2, g = rename(w)       # iteration k2
                    g1 = T.and_(w1.guard, *[T.ult(kk, b) for kk, b in w1.ks])
                    goal = T.or_(T.not_(g), T.not_(g1), apart(w1.idx, w1.off, w1.size, w2))
                    key = (goal.id, 0)
                    if goal is T.TRUE or key in seen: continue
                    seen.add(key)
                    s = pre.fork(); s.pc = T.and_(run_pc, T.ult(k, k2), *base_h)
                    ex.oblige(s, "loop frame: iterations write apart (%s)" % n.split("#")[0], goal, "loop")
    # ---- states after the loop
    out = []
    early = [e for e in exits if not (kind == "head" and e[0] == header and e[1] not in L) and not (kind == "latch" and e in lx_of(exits, back))]
    # which exit is taken: exactly one (named, so that the paths after the loop exclude each other)
    taken = {}; rest = T.TRUE
    if len(exits) > 1:
        for i, e in enumerate(early if len(early) < len(exits) else early[:-1]):
            nm = "%s.early%d" % (tag, i)
            t = T.uf(nm, list(X.ACTIVE), 0) if X.ACTIVE else T.var(nm, 0)
            taken[id(e)] = T.and_(rest, t); rest = T.and_(rest, T.not_(t))
    for e in exits:
        frm, to, st, ph = e
        main = not any(e is x for x in early)
        if main: ke = trip
        else: ke = T.var("%s.exit%d" % (tag, len(out)), kw) if not X.ACTIVE else T.uf("%s.exit%d" % (tag, len(out)), list(X.ACTIVE), kw)
        mm = {k: ke}
        s = X.State()
        if main and kind == "head": s.pc = pre.pc
        else: s.pc = T.subst(st.pc, mm)
        s.pc = T.and_(s.pc, taken.get(id(e), rest))
        s.ghost = {g: sub_val(v, mm) for g, v in st.ghost.items()}
        s.assume = list(st.assume[:nas]) + [T.subst(a, mm) for a in st.assume[nas:]]
        if early and bs is not None:
            # every earlier iteration went on
            rel = X.strip_common(bs.pc, run_pc)[0]
            ex.foralls.append((s.pc, k, ke, rel, tuple(X.ACTIVE)))
        for n, r in st.mem.items():
            if n.startswith("alloca") and n not in pre.mem and n not in ent: continue
            nr = X.Region()
            if r.log is not None:
                n0 = nlog.get(n, 0)
                nr.log = list(r.log[:n0]) + par(n, ke) + [sub_write(w, mm) for w in r.log[n0:]]
            else: nr.cells = {o: (sz, sub_val(v, mm)) for o, (sz, v) in r.cells.items()}
            s.mem[n] = nr
        for n in delta:
            if n not in s.mem:
                nr = X.Region(); nr.log = par(n, ke); s.mem[n] = nr
        s.trace = list(pre.trace)
        if bs is not None and len(bs.trace) > ntr: s.trace.append(X.LoopEv(k, ke, bs.trace[ntr:], T.TRUE, "%s#%d" % lid))
        s.trace += [sub_ev(x, mm) for x in st.trace[ntr:]]
        out.append((frm, to, s, {p: sub_val(v, mm) for p, v in ph.items()}))
    # returns inside the loop body are handled as exits through the blocks outside L (loops do not contain them)
    fr.env.clear(); fr.env.update(env0)
    for kk, v in env1.items():
        if kk not in fr.env:
            try: fr.env[kk] = sub_val(v, {k: trip}) if trip is not None else v
            except Exception: pass
    return out

def lx_of(exits, back):
    latches = {b[0] for b in back}
    return [e for e in exits if e[0] in latches]

def same_val(a, b):
    if a is b: return True
    if isinstance(a, X.Ptr) and isinstance(b, X.Ptr):
        return len(a.cases) == len(b.cases) and all(c1 is c2 and X.same_base(b1, b2) and o1 is o2 for (c1, b1, o1), (c2, b2, o2) in zip(a.cases, b.cases))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b): return all(same_val(x, y) for x, y in zip(a, b))
    if isinstance(a, (int, str)) and a == b: return True
    return False

def symbol_like(v, name):
    if isinstance(v, T.T): return T.var(name, v.w)
    if isinstance(v, X.Ptr) and len(v.cases) == 1:
        return X.Ptr([(T.TRUE, v.cases[0][1], T.var(name, 64))])
    return X.Opaque("loop-varying " + name)

def delta_of(cur, sy):
    """cur - sy as a Python int if constant, else None"""
    if isinstance(cur, T.T) and isinstance(sy, T.T):
        if cur.w == 0: return 0 if cur is sy else None
        d = T.sub(cur, sy)
        return T.sval(d) if T.isc(d) else None
    if isinstance(cur, X.Ptr) and isinstance(sy, X.Ptr):
        if len(cur.cases) != 1 or len(sy.cases) != 1 or not X.same_base(cur.cases[0][1], sy.cases[0][1]): return None
        d = T.sub(cur.cases[0][2], sy.cases[0][2])
        return T.sval(d) if T.isc(d) else None
    if isinstance(cur, X.Opaque) or isinstance(sy, X.Opaque): return None
    return 0 if same_val(cur, sy) else None

def as_log(ex, st, n):
    r = st.mem.get(n)
    nr = X.Region()
    if r is None: nr.log = []
    elif r.log is None: nr.log = [X.Write(T.TRUE, (), T.const(o, 64), s, x) for o, (s, x) in sorted(r.cells.items())]
    else: nr = r
    st.mem[n] = nr

def instances(ex, cands):
    """the facts "every earlier iteration went on" at chosen iterations: cands[d] = values for the counter of a loop at nesting depth d"""
    out = []
    def go(pc, k, ke, rel, act, i, m):
        if i < len(act):
            for c in (cands[i] if i < len(cands) else ()): go(pc, k, ke, rel, act, i + 1, dict(m, **{}) | {act[i]: fit(c, act[i].w)})
            return
        for c in (cands[i] if i < len(cands) else ()):
            mm = dict(m); v = fit(c, k.w)
            p = T.subst(pc, mm); n = T.subst(ke, mm); r = T.subst(T.subst(rel, mm), {k: v})
            out.append(T.implies(T.and_(p, T.ult(v, n)), r))
    for pc, k, ke, rel, act in ex.foralls: go(pc, k, ke, rel, act, 0, {})
    return list({t.id: t for t in out if t is not T.TRUE}.values())
def apps(terms, pred):
    """all sub-terms for which pred holds"""
    seen = set(); out = []; st = list(terms)
    while st:
        t = st.pop()
        if t.id in seen: continue
        seen.add(t.id)
        if pred(t): out.append(t)
        st.extend(t.args)
    return out
