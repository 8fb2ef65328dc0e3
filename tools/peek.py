"""Development aid: show the abstract paths of a method under a variant.  peek.py VARIANT CLASS [ig] [level]"""
import os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, HERE + "/tools"]
import lab
from vf.ctx import Ctx
from vf.terms import show

name, cname = sys.argv[1:3]
ig = "ig" in sys.argv
lvl = "sym" if "level" in sys.argv else None
ov = {}
for f, n, k in lab.load():
    if n == name:
        ov = lab.overlay_of(f, n)
C = Ctx("/repo", overlay=ov)
r = C.mk(cname) if cname.startswith("Mark") else C.md(cname, ig=ig, level=lvl)
if r is None:
    print(C.why(("mk", cname) if cname.startswith("Mark") else ("md", cname, ig, lvl, None)))
for p in r or ():
    print("WHEN", C.facts_str(p))
    for e in p.events:
        print("   ev", e)
    print("   =>", p.exc if p.exc else show(p.v) if hasattr(p.v, "op") else p.v)
