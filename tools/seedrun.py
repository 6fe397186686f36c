"""python3 tools/seedrun.py [ID…]: applies each planted bug to a scratch copy of /repo's tree and runs its property's check there."""
import json, os, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
for i in ids:
    d = V + "/seeded/" + i
    if not os.path.exists(d + "/meta.json"): continue
    p = json.load(open(d + "/meta.json"))["property"]
    if not os.path.exists("%s/props/%s.py" % (V, p.lower())): print(i, p, "no check", flush=True); continue
    t = tempfile.mkdtemp(prefix="mutrepo."); r = t + "/repo"
    shutil.copytree("/repo", r, ignore=shutil.ignore_patterns("_build"), symlinks=True)
    a = subprocess.run(["git", "apply", d + "/patch.diff"], cwd=r, capture_output=True, text=True)
    if a.returncode: print(i, "does not apply", a.stderr[:200]); shutil.rmtree(t); continue
    ev = tempfile.mkdtemp(prefix="mutev.")
    s = time.time()
    c = subprocess.run(["/opt/veriftools/pyvenv/bin/python", V + "/check.py", p], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=r))
    last = [l for l in c.stdout.split("\n") if l.startswith("VIOLATION")]
    print("%-22s %s rc=%d %4ds %s" % (i, p, c.returncode, time.time() - s, (last or [c.stderr[-200:]])[0][:150]), flush=True)
    shutil.rmtree(t); shutil.rmtree(ev)
