"""s51one.py REPLAY: re-run an 8051 case in single steps and show the first wrong one (development aid)."""
import sys, os, json
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))))
from dst import core, s51chk
c = json.load(open(sys.argv[1]))
c = c.get("case", c)
segs = []
for n, e in c["segs"]:
    segs += [[1, e]] + [[1, None]] * (n - 1)
c["segs"] = segs
try:
    s51chk.check(c, core.Ctx())
    print("no violation in single steps")
except core.Viol as e:
    print(e)
