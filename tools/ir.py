import sys; sys.path.insert(0,'/verif')
from props import tex
from vc import execu as X
P=tex.modules()
def show(rx):
    import re
    for n,d in P.dem.items():
        if re.search(rx,d) and n in P.funcs:
            f=P.funcs[n]; f.module.body(f)
            print("==",d)
            for b in f.order:
                print(b+":")
                for i in f.blocks[b]: print("   ",i.txt[:220])
for a in sys.argv[1:]: show(a)
