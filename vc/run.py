"""Common driver of the checks: units run in parallel, obligations discharged, evidence and verdict."""
import os, sys, json, time, traceback, multiprocessing, re, hashlib
from collections import Counter
from . import term as T, smt, execu as X, build, evalt

VERIF = build.VERIF
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)

class UnitResult:
    def __init__(self, name):
        self.name = name; self.obligations = 0; self.discharged = 0; self.failed = []   # dicts
        self.modes = Counter(); self.backends = Counter(); self.kinds = Counter()
        self.solver_s = 0.0; self.exec_s = 0.0; self.inlined = set(); self.contracts = Counter()
        self.assumptions = []; self.undecided = None; self.trusted = set(); self.functions = []
        self.samples = []

def discharge_into(res, obs, inputs=(), timeouts=(10, 20, 40), info=None):
    t0 = time.time()
    rs = smt.discharge(obs, inputs, timeouts)
    res.solver_s += time.time() - t0
    for o, r in zip(obs, rs):
        res.obligations += 1
        res.kinds[o.kind] += 1
        if r.status == "proved":
            res.discharged += 1; res.modes[r.mode] += 1; res.backends[r.backend] += 1
            if len(res.samples) < 3 and r.mode not in ("simplify",): res.samples.append({"obligation": o.name, "function": o.where, "mode": r.mode, "backend": r.backend})
        else:
            res.failed.append({"unit": res.name, "obligation": o.name, "kind": o.kind, "where": o.where, "status": r.status,
                               "solver": r.backend, "mode": r.mode, "model": r.model,
                               "goal": T.show(o.goal, 5)[:600]})
    return rs

def collect(res, ex):
    res.inlined |= ex.inlined
    for k, v in ex.used_contracts.items(): res.contracts[k] += v

class Ctx:
    def __init__(self, pid, title):
        self.pid = pid; self.title = title; self.units = []; self.t0 = time.time()
        self.assumptions = []; self.trusted = []; self.native = []     # bounded stand-ins: (name, fn) -> dict
        self.replayer = None; self.notes = []; self.functions = []; self.bounded_always = []
        self.extra = {}
    def unit(self, name, fn): self.units.append((name, fn))

_CTX = None
def _go(i):
    name, fn = _CTX.units[i]
    r = UnitResult(name)
    t0 = time.time()
    try:
        fn(r)
        if r.obligations == 0 and r.undecided is None: r.undecided = "vacuous: no obligation generated"
    except X.Unsupported as e:
        r.undecided = "not within the verifier's reach: %s" % e
    except build.BuildError as e:
        r.undecided = "extraction failed: %s" % e
    except RecursionError:
        r.undecided = "term recursion limit"
    except Exception as e:
        r.undecided = "internal: " + "".join(traceback.format_exception(type(e), e, e.__traceback__))[-1500:]
    r.exec_s = time.time() - t0 - r.solver_s
    return r

def run_units(ctx, procs=8, limit=None):
    """each unit in its own process, killed after `limit` seconds (then undecided)"""
    global _CTX
    _CTX = ctx
    limit = limit or (180 if TIER == "quick" else 1200)
    deadline = time.time() + (400 if TIER == "quick" else 5400)
    mp = multiprocessing.get_context("fork")
    from multiprocessing.connection import wait
    hurry = False
    pend = list(range(len(ctx.units))); live = {}; out = [None] * len(pend)
    def child(i, c):
        try: c.send(_go(i))
        except Exception as e:
            r = UnitResult(ctx.units[i][0]); r.undecided = "internal: %s" % e; c.send(r)
        c.close(); os._exit(0)
    while pend or live:
        while pend and len(live) < procs:
            i = pend.pop(0); a, b = mp.Pipe(False)
            p = mp.Process(target=child, args=(i, b), daemon=True); p.start(); b.close()
            live[a] = (i, p, time.time())
        for c in wait(list(live), timeout=1.0):
            i, p, t = live.pop(c)
            try: out[i] = c.recv()
            except EOFError:
                r = UnitResult(ctx.units[i][0]); r.undecided = "the verifier process ended (memory?)"; out[i] = r
            p.join(5); c.close()
            if os.environ.get("VC_PROGRESS"): print("  unit", out[i].name, out[i].discharged, "/", out[i].obligations, "%.1fs" % (time.time() - t), out[i].undecided or "", flush=True)
        if not hurry and any(o is not None and any(f["status"] == "refuted" for f in o.failed) for o in out): hurry = True; deadline = min(deadline, time.time() + 60)
        for c, (i, p, t) in list(live.items()):
            if time.time() - t > limit or time.time() > deadline:
                p.kill(); p.join(); live.pop(c)
                r = UnitResult(ctx.units[i][0]); r.undecided = "time limit of %d s" % (time.time() - t); out[i] = r
        if time.time() > deadline:
            for i in pend: r = UnitResult(ctx.units[i][0]); r.undecided = "not started within the time limit"; out[i] = r
            pend = []
    return out

def known_findings(pid):
    fn = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(fn): return []
    return [k for k in json.load(open(fn)) if k.get("property") == pid and k.get("status") == "known"]

def finish(ctx, results):
    """decide, write evidence, print, exit"""
    pid = ctx.pid
    verbose = os.environ.get("VC_VERBOSE")
    failed = []; undecided = []
    for r in results:
        failed += r.failed
        if r.undecided: undecided.append((r.name, r.undecided))
    # obligations that fail as 'undecided' (solver gave up) are not violations by themselves
    refuted = [f for f in failed if f["status"] == "refuted"]
    gaveup = [f for f in failed if f["status"] != "refuted"]
    rdir = os.path.join(VERIF, "evidence", "replay"); os.makedirs(rdir, exist_ok=True)
    nat = []; viols = []
    run_native = list(ctx.bounded_always)
    if failed or undecided:
        run_native += ctx.native
    for name, fn in run_native:
        t = time.time()
        try: d = fn(ctx, failed)
        except build.BuildError as e: d = {"ok": None, "error": str(e)[-1500:]}
        except Exception as e: d = {"ok": None, "error": "".join(traceback.format_exception(type(e), e, e.__traceback__))[-1500:]}
        d["name"] = name; d["secs"] = round(time.time() - t, 2)
        nat.append(d)
    known = known_findings(pid)
    for d in nat:
        for v in d.get("violations", []):
            viols.append((d["name"], v))
    printed_known = set(); real = []
    for nm, v in viols:
        k = next((k for k in known if re.search(k["match"], v)), None)
        if k: printed_known.add(k["what"])
        else: real.append((nm, v))
    kref = []
    for f in refuted:
        key = "%s :: %s" % (f["unit"], f["obligation"])
        k = next((k for k in known if k.get("match_obligation") and re.search(k["match_obligation"], key)), None)
        if k: printed_known.add(k["what"])
        else: kref.append(f)
    code = 0; lines = []
    for w in sorted(printed_known): lines.append("KNOWN-FINDING: property=%s %s" % (pid, w))
    replay = os.path.join(rdir, pid + ".txt")
    if os.path.exists(replay): os.unlink(replay)
    if real:
        with open(replay, "w") as fh:
            fh.write("property %s: %s\n\nfailing input on the real code (native replay):\n" % (pid, ctx.title))
            for nm, v in real[:20]: fh.write("  [%s] %s\n" % (nm, v))
            fh.write("\nfailed obligations:\n")
            for f in failed[:40]: fh.write(json.dumps(f, default=str) + "\n")
            for u in undecided[:20]: fh.write("undecided: %s: %s\n" % u)
        lines.append("VIOLATION property=%s replay=%s" % (pid, replay)); code = 1
    elif kref:
        with open(replay, "w") as fh:
            fh.write("property %s: %s\n\nfailed obligations (refuted by the verifier; no failing input found on the real code):\n" % (pid, ctx.title))
            for f in kref[:60]: fh.write(json.dumps(f, default=str) + "\n")
        lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, replay)); code = 1
    nob = sum(r.obligations for r in results); nd = sum(r.discharged for r in results)
    modes = Counter(); backs = Counter(); kinds = Counter(); contracts = Counter(); inl = set(); samples = []
    for r in results:
        modes.update(r.modes); backs.update(r.backends); kinds.update(r.kinds); contracts.update(r.contracts); inl |= r.inlined
        for s in r.samples:
            if len(samples) < 12: samples.append(dict(s, unit=r.name))
    ev = {"property": pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": ctx.extra.get("level", "proof"),
          "coverage": {
              "obligations": nob, "discharged": nd,
              "checker_cmd": "python3-vt check.py " + pid,
              "trusted_base": ["clang-18 front end and opt-18 (C++ source -> LLVM IR, NDEBUG, no exceptions)", "vc/ symbolic executor and VC generator", "vc/term.py simplifier (self-tested against z3 in setup)", "vc/ival.py interval prover with its rounding lemma (self-tested in setup)", "z3 5.3.2 / cvc5 1.1.2"] + ctx.trusted,
              "units": len(results), "units_proved": sum(1 for r in results if not r.failed and not r.undecided),
              "functions_under_contract": sorted(set(sum((r.functions for r in results), [])))[:400],
              "functions_inlined": sorted(inl)[:200],
              "callee_contracts_used": {k: v for k, v in contracts.most_common(80)},
              "discharged_by_mode": dict(modes), "discharged_by_backend": dict(backs), "obligation_kinds": dict(kinds),
              "solver_s": round(sum(r.solver_s for r in results), 2), "vcgen_s": round(sum(r.exec_s for r in results), 2),
              "not_discharged": [dict(unit=f["unit"], obligation=f["obligation"], status=f["status"]) for f in failed][:60],
              "undecided_units": [{"unit": u, "reason": w[:400]} for u, w in undecided][:60],
              "bounded": [{k: v for k, v in d.items()} for d in nat],
              "samples": samples,
          },
          "assumptions": ctx.assumptions + sorted(set(sum((r.assumptions for r in results), []))),
          "wall_s": round(time.time() - ctx.t0, 2), "violations": 1 if code else 0}
    for k, v in ctx.extra.items():
        if k not in ("level",): ev["coverage"][k] = v
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1, default=str)
    for l in lines: print(l)
    print("%s: %d/%d obligations discharged in %d units, %d refuted, %d gave up, %d units undecided, %d bounded runs, %.1f s" % (
        pid, nd, nob, len(results), len(refuted), len(gaveup), len(undecided), len(nat), time.time() - ctx.t0))
    if verbose or code:
        for f in failed[:int(verbose or 5)]: print("  not discharged:", json.dumps(f, default=str)[:1200])
        for u in undecided[:int(verbose or 5)]: print("  undecided:", u[0], u[1][-1500:])
        for d in nat:
            print("  bounded:", json.dumps({k: v for k, v in d.items() if k != "violations"})[:800], d.get("violations", [])[:8])
    sys.stdout.flush()
    return code
