"python3 tools/show.py Class.method [SelfClass] [inline regex]: prints the evaluated form of a function."
import re, sys, os
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from analysis.framework import Ctx, events, REPO
from analysis.program import Program
from analysis.terms import show, canon
p = Program(REPO); ctx = Ctx(p, "X")
c, m = sys.argv[1].rsplit(".", 1)
if "." in c or not c[0].isupper():
    k = k2 = None
    f = p.find_func(sys.argv[1])
else:
    k = p.find_class(c); k2 = p.find_class(sys.argv[2]) if len(sys.argv) > 2 and sys.argv[2] != "-" else k
    f = k2.find_method(m) or k.find_method(m)
rx = re.compile(sys.argv[3]) if len(sys.argv) > 3 else None
r = ctx.run(f, k2, inline=lambda g, recv: bool(rx and rx.search(g.short)))
print("VALUE", show(r.value))
for e in events(r):
    print("EV", show(e)[:400], "|| pc:", [show(x)[:160] for x in e.pc])
for y in r.yields: print("YIELD", y)
for o in r.raises: print("RAISE", show(o.value)[:200] if hasattr(o,'value') else o)
