#!/usr/bin/env python3
"""mut.py CHECK file 'old' 'new' [n]  -- apply to a copy of /repo and run the check"""
import sys,subprocess,shutil,os
chk,f,old,new=sys.argv[1:5]
n=int(sys.argv[5]) if len(sys.argv)>5 else 1
d="/tmp/mutrepo.%d"%os.getpid()
subprocess.run(["mkdir","-p",d]); subprocess.run("cp -a /repo/lib /repo/tool %s/"%d,shell=True)
p=d+"/"+f; s=open(p).read()
assert s.count(old)>=1,(f,"not found")
i=-1
for _ in range(n): i=s.index(old,i+1)
s=s[:i]+new+s[i+len(old):]
open(p,"w").write(s)
e=dict(os.environ,VERIF_REPO=d,VC_VERBOSE=os.environ.get("VC_VERBOSE","3"))
for c in chk.split(","):
    r=subprocess.run(["/opt/veriftools/pyvenv/bin/python","check.py",c],cwd="/verif",env=e,capture_output=True,text=True)
    print("\n".join(l[:400] for l in r.stdout.split("\n")[:9]), "rc",r.returncode, r.stderr[-300:])
shutil.rmtree(d)
