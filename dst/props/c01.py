"""C01: same seed, image, options and commands => same machine, whatever the host's clock, heap, poll timing and chunking are."""
from ..core import Viol, crashcheck
from .. import script, sims
from .c02 import obs, first_diff


class P:
    ID = "C01"
    RULE = ("One case = one random program on one simulator type, executed on simulated hosts that differ in heap contents "
            "(GLIBC malloc perturbation), clock rate, epoch and jumps, poll results, environment and input chunking; the "
            "observed machine must be equal.")
    QUICK_S = 50
    THOROUGH_S = 600

    def gen(self, rng, tier):
        sim = rng.choice(sims.NAMES)
        hosts = []
        for _ in range(2):
            hosts.append({"perturb": rng.choice([1, 0x5a, 0xaa, 0xff, 0x33]), "tick": rng.choice([0, 1, 1000, 10 ** 6, 10 ** 9]),
                          "epoch": rng.choice([0, 1, 10 ** 18, rng.randrange(10 ** 18)]),
                          "jumps": [[rng.randrange(1, 60), rng.choice([-10 ** 10, 10 ** 10, 10 ** 12])] for _ in range(rng.randrange(3))],
                          "chunks": rng.choice([0, 0, 1, 3, 17]), "short": [[0, rng.choice([1, 2, 7, 60])] for _ in range(rng.randrange(4))], "pad": rng.choice([0, 100, 3000, 70000])})
        return {"sim": sim, "typ": rng.choice(sims.SIMS[sim][0]), "R": rng.randrange(1, 10 ** 6), "cells": sims.code_image(sim, rng),
                "n": rng.choice([0, 1, 5, 50, 500, 3000]), "fill": rng.random() < 0.7, "hosts": hosts, "noload": rng.random() < 0.15,
                "_lists": ["cells", "hosts"]}

    def shrink(self, case):
        for k in (0, 1, 5, 50):
            if k < case["n"]:
                yield dict(case, n=k)
        if not case["noload"]:
            yield dict(case, noload=True)
        for i, h in enumerate(case["hosts"]):
            for k, v in (("jumps", []), ("short", []), ("chunks", 0), ("pad", 0), ("tick", 1000), ("epoch", 0), ("perturb", 0)):
                if h[k] != v:
                    yield dict(case, hosts=case["hosts"][:i] + [dict(h, **{k: v})] + case["hosts"][i + 1:])

    def one(self, case, ctx, h):
        sim = case["sim"]
        if case["noload"] or not case["cells"]:
            fi, ar, pre = [], [], []
        else:
            fi, ar, pre = sims.place(sim, case["cells"], case["fill"])
        cm = list(pre) + (["step %d" % case["n"]] if case["n"] else []) + obs(sim)

        def extra(s):
            if not h:
                return
            s.raw("tick %d" % h["tick"]).raw("epoch %d" % h["epoch"])
            for at, j in h["jumps"]:
                s.gfault("clock", at, "jump", j)
            if h["pad"]:
                s.file("unused", b"x" * h["pad"])
            for at, n in h.get("short", []):
                s.short("x.cmd", n)
        r, o = script.run(ctx, sim, case["typ"], cm, ["-R", str(case["R"])] + ar, fi, perturb=h["perturb"] if h else 0, extra=extra,
                          must_end=False, chunk=h["chunks"] if h else 0)
        if r.end == "limit":
            ctx.mark("limit")
            return r, None
        crashcheck(r)
        return r, [script.scrub(x) if x is not None else None for x in o]

    def check(self, case, ctx):
        r, A = self.one(case, ctx, None)
        ctx.mark("sim_" + case["sim"])
        for h in case["hosts"]:
            r2, B = self.one(case, ctx, h)
            if A is None or B is None:
                if A is not B:
                    raise Viol("end:" + case["sim"], f"{case['sim']} {case['typ']}: ends on one host ({r.end}), not on the other ({r2.end})")
                continue
            for i, (a, b) in enumerate(zip(A, B)):
                if a != b:
                    raise Viol("diff:" + case["sim"], f"{case['sim']} {case['typ']}: output of command {i} depends on the host\n"
                               + first_diff(a or "", b or ""))
        if A:
            for x in A:
                ctx.ticks += script.counters(x or "").get("total", 0)


PROP = P()
