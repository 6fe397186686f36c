#!/opt/veriftools/pyvenv/bin/python
"""check.py <property id>: prove the property's contracts on /repo's current sources."""
import sys, os, importlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(200000)
def main():
    pid = sys.argv[1]
    from vc import run
    m = importlib.import_module("props." + pid.lower())
    sys.exit(m.main())
main()
