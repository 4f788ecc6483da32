"""gd.py REPLAY: run the case of a replay file; when a run dies, show its backtrace (run again under gdb)."""
import json, sys, os, resource, subprocess
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))))
from dst import core, load_prop
d = json.load(open(sys.argv[1]))


class C(core.Ctx):
    def run(s, x):
        r = core.Ctx.run(s, x)
        if r.end in ("signal", "noresult", "cpuloop"):
            orig = subprocess.Popen

            def popen(cmd, env=None, cwd=None, **k):
                a = ["gdb", "-batch", "-ex", "set startup-with-shell off"]
                for n, v in env.items():
                    a += ["-ex", "set environment %s %s" % (n, v)]
                a += ["-ex", "handle SIGXCPU stop", "-ex", "break abort", "-ex", "run", "-ex", "bt 25", "--args"] + cmd
                p = orig(a, cwd=cwd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_CPU, (6, 20)))
                print(p.communicate()[0].decode("latin1")[-4000:])
                return orig(["true"], stdout=subprocess.PIPE)
            subprocess.Popen = popen
            try:
                core.run_scn(x)
            finally:
                subprocess.Popen = orig
        return r


try:
    load_prop(d["property"]).check(d["case"], C()); print("no violation")
except core.Viol as e:
    print(e.sig, e.msg[:300])
