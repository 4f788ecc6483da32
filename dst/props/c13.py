"""C13: clocks, simulated time and the timers of the user."""
import re
import random
from ..core import Viol
from .. import script, sims
from . import c23

LINE = re.compile(r'^timer #(\d+)\("([^"]*)"\) (ON|OFF)(?:,(ISR|IDLE|HALT))? (-?[0-9.]+) sec \((\d+) clks\)$', re.M)
SYS = {"time": "", "isr": "ISR", "idle": "IDLE", "halt": "HALT"}
UNIT = {"s": 1.0, "ms": 1e-3, "us": 1e-6, "ns": 1e-9}
XTALS = [1000000, 12000000, 11059200, 32768, 4000000, 16000000, 3]
WAIT = {"m6800": 0x3e, "m68hc11": 0x3e, "m6809": 0x13}


class P:
    ID = "C13"
    RULE = ("One case = one program (interrupts, idle, subroutines) and a history of steps, changes of the clock frequency, resets and timer commands; after each all timers of the machine and of the user must show what the "
            "clocks since the last look make of them.")
    QUICK_S = 30
    THOROUGH_S = 600
    LEVEL = "exploration"
    SIMS = sorted(c23.M)

    def gen(self, rng, tier):
        sim = rng.choice(sorted(c23.M) + ["s51"] * 6 + ["stm8"] * 2)
        c = c23.PROP.gen(rng, tier)
        while c["sim"] != sim:
            c = c23.PROP.gen(rng, tier)
        case = {k: c[k] for k in ("sim", "typ", "prog", "main", "subs")}
        case["pre"] = sims.irq_preamble(sim, rng) if sim in ("s51", "stm8") else []
        if sim in WAIT and rng.random() < .4:
            case["pre"] = c23.M[sim]["init"] + [0x4c] * rng.randrange(1, 20) + [WAIT[sim]]
        if sim == "s51":
            case["pre"] += [0x75, 0xa8, rng.choice([0x9f, 0x8a, 0x82, 0xbf])]
            case["idle"] = rng.choice([0, 0, 1, 1, 2])
        ops = []
        names = ["a", "b", "t5", 5, 6, 9, 300]
        for _ in range(rng.randrange(3, 22)):
            k, n = rng.random(), rng.choice(names)
            if k < .35:
                o = ["step", rng.choice([1, 1, 2, 5, 30, 200, 1000])]
            elif k < .4:
                o = ["fine", rng.choice([5, 20, 60])]
            elif k < .6:
                o = ["add", n, rng.choice([None, 1, 1, -1, 0, 7, -3]), rng.choice([None, None, "isr", "idle", "halt", 0, 1])]
            elif k < .66:
                o = ["delete", n]
            elif k < .74:
                o = ["stop", n]
            elif k < .82:
                o = ["run", n]
            elif k < .9:
                v = rng.choice([0, 1, 5, 1000, 123456])
                o = ["value", n, rng.choice([[v], [v], [v, rng.choice(sorted(UNIT))], [v, rng.randrange(1000), rng.choice(sorted(UNIT))]])]
            elif k < .96:
                o = ["xtal", rng.choice(XTALS)]
            elif k < .98:
                o = ["delete", rng.choice(["time", "isr", "idle"])]
            else:
                o = ["reset"]
            ops.append(o)
        case.update(ops=ops, perturb=rng.choice([0, 0x5a, 0xa5]), _lists=["ops", "main", "pre"])
        return case

    def trivial(self, case):
        return not case["ops"]

    def fine(self, case, o, sts, bad):
        """step by step: where and how the CPU was says what the clocks have to be counted as"""
        c = [script.counters(x or "") for x in sts]
        for a, b in zip(c, c[1:]):
            if "idle" not in a or "idle" not in b or "pc" not in a:
                return
            d = {n: b[n] - a[n] for n in ("total", "isr", "idle")}
            w = "from 0x%x (%s) to 0x%x (%s) took %r" % (a["pc"], a["cpu"], b["pc"], b["cpu"], d)
            if a["cpu"] == "Idle" and b["cpu"] == "Idle" and d["idle"] != d["total"] or a["cpu"] == "OK" and b["cpu"] == "OK" and d["idle"]:
                bad("idle", o, "a step " + w)
            if case["sim"] == "s51" and not any(x[0] == "reset" for x in case["ops"]) and case["pre"]:
                ina, inb = (3 <= x["pc"] < 0x60 for x in (a, b))
                if ina and d["isr"] != d["total"] and (inb or case["typ"] != "DS320") or not ina and not inb and d["isr"]:
                    bad("isr", o, "a step " + w)

    def check(self, case, ctx):
        sim, typ = case["sim"], case["typ"]
        code, calls = c23.program(dict(case))
        if case["pre"] or case.get("idle"):
            # the program of C23 behind an introduction; handlers are RETI (s51) by filling the gap
            if sim == "s51":
                o = case["pre"] + ([0x75, 0x87, case["idle"]] if case.get("idle") == 1 else [])
                body = [0x04, 0x08] * 3 + ([0x75, 0x87, case["idle"], 0] if case.get("idle") else []) + [0x80, 0]
                body[-1] = -len(body) & 255
                code = [2, 0, 0x60] + [0x04, 0x32, 0x32] * 31 + o + body
                code = code[:0x60] + o + body
                for v in (3, 0xb, 0x13, 0x1b, 0x23, 0x2b, 0x33):
                    code[v:v + 3] = [0x08, 0x04, 0x32]
            elif sim == "stm8":
                code = case["pre"] + [0x4c, 0x5c, 0x20, 0xfc]
            else:
                code = case["pre"]
        fi, ar, pre = sims.place(sim, code, False)
        if "org" in c23.M[sim]:
            fi, pre = [("p.ihx", sims.ihex(code, c23.org(sim)))], ["fill rom 0 0xff 0", "step 1", "pc 0x%x" % c23.org(sim)]
        ar = ["-R", "5", "-X", "12M"] + ar
        cmds = list(pre)
        look = ["timer list", "state"]
        pos = []
        for o in [["look"]] + case["ops"]:
            k = o[0]
            if k == "step":
                cmds.append("step %d" % o[1])
            elif k == "fine":
                cmds += ["state"] + ["step 1", "state"] * o[1]
            elif k == "xtal":
                cmds.append('set option "xtal" %d' % o[1])
            elif k == "reset":
                cmds.append("reset")
            elif k == "look":
                cmds.append("expr 1")
            else:
                n = o[1] if isinstance(o[1], int) else '"%s"' % o[1]
                t = "timer %s %s" % (k, n)
                if k == "add" and o[2] is not None:
                    t += " %d" % o[2] + ("" if o[3] is None else " %d" % o[3] if isinstance(o[3], int) else ' "%s"' % o[3])
                if k == "value":
                    t += "".join(" %d" % x if isinstance(x, int) else ' "%s"' % x for x in o[2])
                cmds.append(t)
            pos.append(len(cmds))
            cmds += look
        r, out = script.run(ctx, sim, typ, cmds, ar, fi, perturb=case["perturb"])
        hz, user, prev = 12000000, {}, None
        secs = dict.fromkeys(SYS, 0.0)

        def bad(sig, o, t):
            raise Viol(sig, "%s %s: after %s: %s" % (sim, typ, " ".join(map(str, o)), t))
        for o, p in zip([["look"]] + case["ops"], pos):
            k = o[0]
            if k == "fine":
                self.fine(case, o, out[p - 2 * o[1] - 1:p:2], bad)
                k = "step"
            ls = [m for m in LINE.findall(out[p] or "")]
            now = {m[1]: (m[2], m[3], float(m[4]), int(m[5])) for m in ls if m[1] in SYS}
            if len(now) != 4:
                if prev is None and not ls:
                    return
                bad("list", o, "a timer of the machine is not shown:\n" + (out[p] or ""))
            if prev is None:
                for n in SYS:
                    secs[n] = now[n][2]
                if abs(now["time"][2] - now["time"][3] / hz) > 1e-9:
                    bad("time", o, "the time is %.12f, %d clocks make %.12f" % (now["time"][2], now["time"][3], now["time"][3] / hz))
            d = {n: now[n][3] - (prev[n][3] if prev and k != "reset" else 0 if prev else now[n][3]) for n in SYS}
            if k not in ("step", "reset") and any(d.values()):
                bad("move", o, "the clock went on by %r" % d)
            if min(d.values()) < 0 or max(d.values()) > d["time"]:
                bad("back", o, "the counters of the machine moved by %r" % d)
            if k == "step" and o[0] == "step" and o[1] > 20 and "stepped" in (out[p - 1] or "") and sim not in ("s51", "stm8") and d["time"] <= 0:
                bad("still", o, "no clock has passed")
            for n in SYS:
                secs[n] = (0 if k == "reset" else secs[n]) + d[n] / hz
                if abs(secs[n] - now[n][2]) > 1e-11 + 1e-9 * secs[n]:
                    bad("secs", o, "timer %s shows %.15f sec, the clocks at their frequencies make %.15f" % (n, now[n][2], secs[n]))
                if now[n][:2] != ("ON", SYS[n]):
                    bad("kind", o, "timer %s is %r" % (n, now[n][:2]))
            ct = script.counters(out[p + 1] or "")
            for a, n in (("total", "time"), ("isr", "isr"), ("idle", "idle")):
                if ct.get(a) != now[n][3]:
                    bad("state", o, "`state` says %s clocks, timer %s says %d" % (ct.get(a), n, now[n][3]))
            # what the timers of the user should be now
            if k == "step":
                for u in user.values():
                    if u["on"]:
                        x = d[u["src"]]
                        u["n"] = (u["n"] + (x if u["dir"] >= 0 else -x)) % 2 ** 64
                        u["t"] += (x if u["dir"] >= 0 else -x) / hz
                        u["sum"] += x / hz
                    if d[u["src"]]:
                        ctx.mark("count_" + u["src"])
            elif k == "xtal":
                hz = o[1]
            elif k == "add" and o[1] not in user and not (isinstance(o[1], int) and any(u["nr"] == o[1] for u in user.values())):
                t = o[3] if o[2] is not None else None
                user[o[1]] = dict(n=0, t=0.0, sum=0.0, on=True, dir=1 if o[2] is None else o[2], src={None: "time", 0: "time", 1: "isr"}.get(t, t), nr=o[1] if isinstance(o[1], int) else None)
                if user[o[1]]["nr"] is None:
                    # a named one gets the first free number: look it up
                    user[o[1]]["nr"] = next((int(m[0]) for m in ls if m[1] == o[1]), None)
            elif k != "reset" and k != "look":
                n = o[1] if o[1] in user else next((x for x in user if user[x]["nr"] == o[1]), None)
                if n is not None:
                    u = user[n]
                    if k == "delete":
                        del user[n]
                    elif k in ("stop", "run"):
                        u["on"] = k == "run"
                    elif k == "value":
                        v = o[2]
                        if len(v) == 1:
                            u["n"], u["t"] = v[0], v[0] / hz
                        elif len(v) == 2:
                            u["t"] = v[0] * UNIT[v[1]]
                            u["n"] = None       # rounded
                        else:
                            u["n"], u["t"] = v[0], v[1] * UNIT[v[2]]
                        u["sum"] = abs(u["t"])
            shown = {int(m[0]): m for m in ls if m[1] not in SYS}
            if sorted(shown) != sorted(u["nr"] for u in user.values() if u["nr"] is not None) or any(u["nr"] is None for u in user.values()):
                bad("set", o, "the timers shown are %s, they should be %s" % (sorted(shown), sorted("%s(#%s)" % (n, u["nr"]) for n, u in user.items())))
            for n, u in user.items():
                m = shown[u["nr"]]
                x = (int(m[5]) - u["n"] + 99) % 2 ** 64 - 99 if k == "reset" else 0
                if u["on"] and 0 < abs(x) < 17:
                    # time of the reset itself
                    u["n"], u["t"] = (u["n"] + x) % 2 ** 64, u["t"] + x / hz
                ty = "" if u["src"] == "time" else u["src"].upper()
                if u["n"] is None:
                    w = u["t"] * hz
                    if abs(int(m[5]) - w) > 1.001:
                        bad("value", o, "timer %s shows %s clocks, %.12f seconds make %.3f" % (n, m[5], u["t"], w))
                    u["n"] = int(m[5])
                if m[1] != (n if isinstance(n, str) else "unnamed") or m[2] != ("ON" if u["on"] else "OFF") or m[3] != ty:
                    bad("kind", o, "timer %s is shown as %r" % (n, m))
                if int(m[5]) != u["n"] or abs(float(m[4]) - u["t"]) > 1e-11 + 1e-9 * (u["sum"] + abs(u["t"])):
                    bad("count", o, "timer %s shows %s clocks and %s sec, it should show %d and %.15f" % (n, m[5], m[4], u["n"], u["t"]))
            prev = now
        ctx.ticks += prev["time"][3]


PROP = P()
