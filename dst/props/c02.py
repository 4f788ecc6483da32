"""C02: how execution is cut into runs, and what is inspected in between, never changes the machine."""
import random
from ..core import Viol, crashcheck
from .. import script, sims

HW = {
    "s51": ["cpu[0]", "simif[0]", "vcd[0]", "timer[0]", "timer[1]", "timer[2]", "uart[0]", "dreg[0]", "port[0]", "port[1]", "port[2]", "port[3]", "irq[0]"],
    "stm8": ["cpu[0]", "clk[0]", "uart[1]", "uart[3]", "itc[0]", "pa[0]", "pd[0]", "rst[0]", "tim1[1]", "tim2[2]", "tim3[3]", "tim4[4]", "flash[0]", "simif[0]", "dport[0]"],
    "i8048": ["cpu[0]", "timer[0]", "irq[0]", "bus[0]", "port[1]", "port[2]", "pext[0]"], "m6800": ["irq[0]", "uart[0]", "uart[1]", "pia[0]", "pia[1]"],
    "m6809": ["irq[0]", "uart[0]", "uart[1]", "pia[0]", "pia[1]"], "m68hc11": ["irq[0]", "uart[0]", "uart[1]", "pia[0]", "pia[1]"],
    "m68hc12": ["cpu[0]", "irq[0]", "uart[0]", "pia[0]", "pia[1]"],
    "p1516": ["pa[0]", "pi[0]", "timer[0]", "uart[0]", "clock[0]", "oports[0]", "n4ddr[0]"], "oisc": ["uart[0]", "simif[0]"],
    "pdk": ["osc[0]", "t16[0]", "wdt[0]", "simif[0]"], "pblaze": ["irq[0]", "port_id[0]", "output_port[0]", "input_port[0]"],
    "z80": ["cpu[0]", "pc16550[0]", "simif[0]"], "mos6502": ["irq[0]"], "avr": ["port[0]", "vcd[0]"],
}

SAFE = {"s51": [("iram", 0, 0x7f), ("xram", 0, 0xff), ("rom", 0, 0x7ff)], "i8048": [("iram", 0, 0x3f), ("xram", 0, 0xff), ("rom", 0, 0x7ff)],
        "avr": [("iram", 0, 0x1f), ("rom", 0, 0x7ff)], "pdk": [("ram", 0, 0x7f)], "stm8": [("rom", 0, 0x7ff), ("rom", 0x8000, 0x87ff)],
        "oisc": [("rom", 0x200, 0x7ff)], "pblaze": [("iram", 0, 0x3f), ("rom", 0, 0x3ff), ("stack", 0, 0x1e)]}


def inspections(sim, rng):
    # `dump` and memory operands of `expr` access memory through the hardware on purpose (that is how a user sees live
    # peripheral registers), so only memory without a peripheral behind it is inspected here
    space, base, size = sims.SIMS[sim][1:4]
    sp = rng.choice(SAFE.get(sim) or [(space, base, base + min(size, 0x800) - 1)])
    a = rng.randrange(sp[1], sp[2] + 1)
    b = min(sp[2], a + rng.randrange(40))
    c = base + rng.randrange(0x200 if sim == "oisc" else 0, min(size, 0x800))
    opts = ["info registers", "state", "dump /h %s 0x%x 0x%x" % (sp[0], a, b), "dump %s 0x%x 0x%x" % (sp[0], a, b),
            "dump /i %s 0x%x 0x%x" % (sp[0], a, b), "dc 0x%x 0x%x" % (c, c + 8), "dch 0x%x 0x%x" % (c, min(c + 8, base + size - 1)),
            "info memory", "info breakpoints", "info variables", "conf", "help step", "show option", "expr 3*4+1",
            "expr %s[0x%x]" % (sp[0], a), "where %s 0x11 0x22" % sp[0], "hole %s 4 0" % sp[0], "pc",
            "get option quit", "dump"]
    for h in HW.get(sim, []):
        opts.append("info hardware " + h)
    return rng.choice(opts)


def scrub(t):
    # the configuration of simif holds the reason of the last stop, which is about the run, not the machine
    return None if t is None else "\n".join(x for x in script.scrub(t).split("\n") if "Reason of last stop" not in x)


def obs(sim):
    o = sims.observe_cmds(sim).split("\n")[:-1]
    # hidden state of the peripherals; asked before the dumps, which access memory through the hardware
    return o[:2] + ["info hardware " + h for h in HW.get(sim, [])] + o[2:]


class P:
    ID = "C02"
    RULE = ("One case = one random program on one of the 20 simulators, executed once in one go and once cut into pieces "
            "(steps, breakpoint stops, stop commands from a second console at random host polls, each with read-only "
            "commands in between); the complete observed machine state must be equal.")
    QUICK_S = 55
    THOROUGH_S = 900
    LEVEL = "exploration"

    def gen(self, rng, tier):
        sim = rng.choice(sims.NAMES + ["s51", "stm8", "s51", "stm8"])
        typ = rng.choice(sims.SIMS[sim][0])
        mode = rng.choice(["steps", "steps", "bp", "stop"] + ["stop"])
        n = rng.choice([7, 30, 100, 400, 1500]) if tier == "quick" else rng.choice([7, 30, 100, 400, 1500, 8000])
        cuts = []
        for _ in range(rng.choice([1, 2, 4, 8])):
            cuts.append([rng.choice([1, 1, 2, 3, rng.randrange(1, n + 1)]),
                         [inspections(sim, rng) for _ in range(rng.randrange(4))]])
        return {"sim": sim, "typ": typ, "R": rng.randrange(1, 10 ** 6), "cells": sims.code_image(sim, rng, few=mode == "stop" and rng.random() < 0.4), "n": 100 if mode == "stop" else n, "cper": rng.choice([0, 0, 1, 3, 7, 30, 300]), "mode": mode,
                "fill": rng.random() < 0.8, "cuts": cuts, "_lists": ["cuts", "cells"],
                "bps": [rng.randrange(1 << 30) for _ in range(rng.choice([1, 2, 5]))],
                "polls": [rng.randrange(1, 12) for _ in range(len(cuts))], "perturb": rng.choice([0, 0, 0x5a, 0xff])}

    def trivial(self, case):
        return len(case["cuts"]) == 0

    def shrink(self, case):
        for k in (3, 10, 50, 200):
            if k < case["n"]:
                yield dict(case, n=k)
        for i, c in enumerate(case["cuts"]):
            if c[1]:
                yield dict(case, cuts=case["cuts"][:i] + [[c[0], c[1][1:]]] + case["cuts"][i + 1:])
        if case["fill"]:
            yield dict(case, fill=False)

    def check(self, case, ctx):
        sim, typ = case["sim"], case["typ"]
        if not case["cells"]:
            return
        fi, ar, pre = sims.place(sim, case["cells"], case["fill"])
        ar = ["-R", str(case["R"])] + ar
        n = case["n"]

        def ref(k):
            r, o = script.run(ctx, sim, typ, pre + ["step %d" % k] + obs(sim), ar, fi)
            return o[len(pre)], [scrub(x) for x in o[len(pre) + 1:]], r
        st, R, r = ref(n)
        stop = script.stop_of(st or "")
        cnt = script.counters(R[1] or "")
        if stop is None or "inst" not in cnt:
            raise Viol("nostop", f"step {n} did not report a stop: {st!r}")
        if stop[1] != 109 or cnt["inst"] != n:
            if stop[1] == 109:
                ctx.mark("waiting")
            else:
                n = cnt["inst"] - 1
                if n < 2:
                    ctx.mark("short")
                    return
                st, R, r = ref(n)
                stop = script.stop_of(st or "")
                cnt = script.counters(R[1] or "")
                if stop is None or stop[1] != 109:
                    ctx.mark("early")
                    return
        exact = cnt["inst"] == n
        ctx.ticks += cnt.get("total", 0)
        ctx.mark("mode_" + case["mode"])
        ctx.mark("sim_" + sim)
        if case["mode"] == "steps" or not exact or (case["mode"] == "stop" and n < case["n"]):
            cm, left = list(pre), n
            for k, ins in case["cuts"]:
                if left <= 0:
                    break
                k = min(k, left)
                cm += ["step %d" % k] + ins
                left -= k
            if left > 0:
                cm += ["step %d" % left]
            r, o = script.run(ctx, sim, typ, cm + obs(sim), ar, fi, perturb=case["perturb"])
            self.cmp(case, n, R, [scrub(x) for x in o[len(cm):]])
            return
        if case["mode"] == "bp":
            space, base, size = sims.SIMS[sim][1:4]
            m = min(size, len(case["cells"]) * 2)
            pts = sorted({base + b % m for b in case["bps"]})
            cm = list(pre) + ["break 0x%x" % p for p in pts]
            at = []
            for k, ins in case["cuts"]:
                at.append(len(cm))
                cm += ["step %d" % max(1, k), "state"] + ins
            cm += ["delete"]
            r, o = script.run(ctx, sim, typ, cm + obs(sim), ar, fi, perturb=case["perturb"])
            tail = [scrub(x) for x in o[len(cm):]]
            cnt2 = script.counters(tail[1] or "")
            bad = [script.stop_of(o[i] or "") for i in at]
            if any(b is None or b[1] not in (104, 109) for b in bad) or cnt2.get("inst", 0) < 1:
                ctx.mark("bp_early")
                return
            if any(b[1] == 104 for b in bad):
                ctx.mark("bp_hit")
            st, R, r = ref(cnt2["inst"])
            s2 = script.stop_of(st or "")
            if s2 is None or s2[1] != 109 or script.counters(R[1])["inst"] != cnt2["inst"]:
                ctx.mark("bp_ref_early")
                return
            # the list of breakpoints is not part of the machine; registers, counters and memory are
            self.cmp(case, cnt2["inst"], R, tail)
            return
        # stop: a socket console runs, another stops it at an arbitrary poll
        s = script.scn(sim, typ, pre + ["expr /n cperiod=%d" % case["cper"], "expr 1234567+1"], ar, fi)
        s.perturb = case["perturb"]
        s.args += ["-z", "7001"]
        s.client("c1", 7001)
        s.op("c1", "q", "stdin").wait_out("c1", "stdout", "\n1234568").polls("c1", 3).connect("c1").wait_out("c1", "c1", "software")
        tot = 0
        for (k, ins), p in zip(case["cuts"], case["polls"]):
            s.data("c1", "run\n").polls("c1", p).data("c1", "\n" if p & 1 else "stop\n")
            s.polls("c1", 30)
            for c in ins:
                s.data("c1", c + "\n").polls("c1", 4)
        s.data("c1", "".join(c + "\n" for c in obs(sim)) + "expr 4000+321\nkill\n")
        r = ctx.run(s)
        if r.end in ("limit", "cpuloop"):
            ctx.mark("stop_limit")
            return
        crashcheck(r)
        t = r.eps["c1"].out.decode("latin1").replace("\r", "").replace("\0", "")
        c2 = script.counters(t[t.rfind("CPU state="):])
        if "inst" not in c2 or c2["inst"] < 1 or c2["inst"] > 300000 or c2.get("sim") != "stopped":
            ctx.mark("stop_unused")
            return
        if "CPU state= OK" not in t[t.rfind("CPU state="):]:
            ctx.mark("stop_waiting")        # a waiting CPU executes no instruction to count by
            return
        st, R, r2 = ref(c2["inst"])
        s2 = script.stop_of(st or "")
        if s2 is None or s2[1] != 109 or script.counters(R[1])["inst"] != c2["inst"]:
            ctx.mark("stop_ref_early")
            return
        ctx.mark("stop_compared")
        i = t.rfind("info registers\n", 0, t.rfind("CPU state="))
        blob = scrub(t)
        for cmd, want in zip(obs(sim), R):
            w = (want or "").replace("\0", "").strip("\n")
            if w and w not in blob:
                raise Viol("stop:" + cmd.split()[0], f"{sim} {typ}: after run/stop at {c2['inst']} instructions `{cmd}` differs "
                           f"from one uninterrupted run\nwant {diffhint(w, blob)}")

    def cmp(self, case, n, A, B):
        for cmd, a, b in zip(obs(case["sim"]), A, B):
            if a != b:
                raise Viol("diff:" + " ".join(cmd.split()[:2]), f"{case['sim']} {case['typ']}: after {n} instructions `{cmd}` "
                           f"depends on how the run was cut\n" + first_diff(a or "", b or ""))


def diffhint(w, blob):
    for line in w.split("\n"):
        if line not in blob:
            return line
    return w[:200]


def first_diff(a, b):
    la, lb = a.split("\n"), b.split("\n")
    for x, y in zip(la, lb):
        if x != y:
            return f"one go: {x}\ncut:    {y}"
    return f"one go: {len(la)} lines\ncut:    {len(lb)} lines"


PROP = P()
