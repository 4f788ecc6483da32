"""cl.py SIM TYPE [args -- ] cmd... : run console commands in the simulated host and print the output (development aid)."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))))
from dst import core, script
a = sys.argv[3:]
args = []
if "--" in a:
    i = a.index("--")
    args, a = a[:i], a[i + 1:]
ctx = core.Ctx()
r, o = script.run(ctx, sys.argv[1], sys.argv[2], a, args, must_end=False)
print(r.end, r.code)
print(r.text)
