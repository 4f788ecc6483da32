"""tr.py REPLAY: run the case of a replay file, printing the console text of every simulated run."""
import json, sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))))
from dst import core, load_prop
d = json.load(open(sys.argv[1]))
class C(core.Ctx):
    def run(s, x):
        r = core.Ctx.run(s, x)
        print("=" * 70, x.args, r.end)
        for l in x.lines:
            print("   |", l[:200])
        for n, e in r.eps.items():
            if e.out:
                print("---", n); print("\n".join(l[:110] for l in e.out.decode("latin1").split("\n") if not l.startswith("0x0") or "#" in sys.argv)[-int(sys.argv[2] if len(sys.argv) > 2 else 1500):])
        return r
try:
    load_prop(d["property"]).check(d["case"], C()); print("no violation")
except core.Viol as e:
    print(e.sig, e.msg)
