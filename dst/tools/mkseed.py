#!/usr/bin/env python3
"""mkseed.py new SPEC.py | verify ID... [--nocheck]: creates / verifies planted bugs (development only; works on /repo and undoes it)."""
import json, os, subprocess, sys, time, runpy
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
S = os.path.join(V, "seeded")


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, errors="replace", **k)


def new(spec):
    for b in runpy.run_path(spec)["BUGS"]:
        d = os.path.join(S, b["id"])
        os.makedirs(d, exist_ok=True)
        assert not sh("git -C /repo status --short -uno").stdout.strip(), "dirty"
        try:
            for f, old, nw in b["edits"]:
                p = os.path.join("/repo", f)
                t = open(p, encoding="latin1").read()
                assert t.count(old) == 1, (b["id"], f, t.count(old))
                open(p, "w", encoding="latin1").write(t.replace(old, nw))
            open(os.path.join(d, "patch.diff"), "w", encoding="latin1").write(
                subprocess.run("git -C /repo diff", shell=True, capture_output=True).stdout.decode("latin1"))
        finally:
            sh("git -C /repo checkout -- .")
        open(os.path.join(d, "demo.sh"), "w").write("#!/bin/bash\n# exit 0: behaves; nonzero: the property is broken\n" + b["demo"].lstrip("\n"))
        for n, t in b.get("files", {}).items():
            open(os.path.join(d, n), "w").write(t)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        print("new", b["id"])


def verify(ids, check=True, extra=()):
    for i in ids:
        d = os.path.join(S, i)
        m = json.load(open(os.path.join(d, "meta.json")))
        assert not sh("git -C /repo status --short -uno").stdout.strip(), "dirty"
        r0 = sh("bash /opt/vp/build.sh && cd /repo && timeout 300 bash %s/demo.sh" % d)
        print(i, "demo clean rc", r0.returncode, "" if not r0.returncode else (r0.stdout + r0.stderr)[-600:])
        try:
            a = sh("git -C /repo apply %s/patch.diff" % d)
            assert a.returncode == 0, a.stderr
            b = sh("bash /opt/vp/build.sh")
            if b.returncode:
                print(i, "BUILD FAILED", b.stdout[-400:], b.stderr[-800:])
                continue
            sh("bash /opt/vp/test.sh /tmp/sd/t.json")
            t = json.load(open("/tmp/sd/t.json"))
            base = json.load(open("/opt/vp/BASELINE.json"))
            r1 = sh("cd /repo && timeout 300 bash %s/demo.sh" % d)
            print(i, "tests passed", len(t["passed"]), "demo patched rc", r1.returncode, (r1.stdout + r1.stderr)[-300:])
            if check:
                for p in [m["property"]] + list(extra):
                    t0 = time.time()
                    c = sh("cd %s && VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py run %s --tier quick" % (V, p))
                    print(i, p, "check rc", c.returncode, "%.0fs" % (time.time() - t0), " | ".join(l[:200] for l in c.stdout.splitlines() if "iolation" in l or "VIOL" in l)[:500])
        finally:
            sh("git -C /repo checkout -- .")
    sh("bash /opt/vp/build.sh")


if sys.argv[1] == "new":
    new(sys.argv[2])
else:
    a = [x for x in sys.argv[2:] if not x.startswith("--")]
    verify(a or sorted(os.listdir(S)), "--nocheck" not in sys.argv, [x[2:] for x in sys.argv[2:] if x.startswith("--C")])
