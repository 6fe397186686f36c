import sys; sys.path.insert(0,'/verif')
from vc import run
from props import tex, save
tex.modules(); tex.find
ctx=run.Ctx("X","x")
for k in sys.argv[1:]: save.add_writer(ctx,k)
rs=run.run_units(ctx)
for r in rs:
    print(r.name, r.discharged, r.obligations, "%.1f %.1f"%(r.exec_s,r.solver_s), (r.undecided or "")[-700:])
    for f in r.failed[:14]: print("   ", f["status"], f["obligation"], str(f["model"])[:300], f["goal"][:200])
