#!/opt/veriftools/pyvenv/bin/python
"""self-test of the engine: the simplifier against z3 on random terms, the tools present"""
import sys, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
for t in ("clang++", "opt", "z3-new", "cvc5"):
    if subprocess.run(["which", t], capture_output=True).returncode: print("missing tool:", t)
os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
import vc.selftest
sys.exit(vc.selftest.main())
