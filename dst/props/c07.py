"""C07: a run stops exactly at the first accepted fetch breakpoint: hit counts, conditions, temporary breakpoints, commands."""
import re
from ..core import Viol, crashcheck
from .. import script, sims

COND = [None, None, None, "0", "1", "(nn=nn+1)%2==0", "(nn=nn+1)%3==1", "(nn=nn+1)>4"]


def evalcond(c, m):
    if c is None:
        return True
    if c in "01":
        return c == "1"
    m["nn"] += 1
    n = m["nn"]
    return {"(nn=nn+1)%2==0": n % 2 == 0, "(nn=nn+1)%3==1": n % 3 == 1, "(nn=nn+1)>4": n > 4}[c]


def regs_of(t):
    """the register block a stop prints"""
    i = t.rfind("Stop at 0x")
    if i < 0:
        return None
    t = t[i:]
    t = t[t.find("\n") + 1:]
    return re.sub(r"(0x[0-9a-f]+) [ FD] ", r"\1   ", re.split(r"^F 0x", t, flags=re.M)[0])


class P:
    ID = "C07"
    RULE = ("One case = one random program (interrupts included) on one of the 20 simulators, single stepped once to get the PC trace, then run again with "
            "random break/tbreak/clear/delete/commands/run/run to/step/next in pieces; a model over the trace predicts every stop, printed token and counter.")
    QUICK_S = 45
    THOROUGH_S = 600

    def gen(self, rng, tier):
        sim = rng.choice(sims.NAMES + ["s51", "s51", "stm8"])
        typ = rng.choice(sims.SIMS[sim][0])
        N = rng.choice([40, 120, 250]) if tier == "quick" else rng.choice([60, 250, 800])
        ops = []
        for _ in range(rng.choice([2, 5, 12, 20])):
            k = rng.choice(["brk", "brk", "brk", "go", "go", "go", "go", "clear", "del", "delall", "cmd", "info", "next", "runto"])
            if k == "brk":
                ops.append([k, rng.random() < 0.3, rng.randrange(1 << 20), rng.choice([None, None, 1, 2, 3, 7]), rng.choice(COND)])
            elif k == "go":
                ops.append([k, rng.choice(["run", "step"]), rng.choice([1, 2, 3, 10, 50, 1000])])
            elif k == "cmd":
                ops.append([k, rng.randrange(1 << 20), rng.choice(["tok", "tok", "step", "del", "delall"]), rng.choice([1, 3, 20])])
            else:
                ops.append([k, rng.randrange(1 << 20), rng.randrange(1 << 20)])
        return {"sim": sim, "typ": typ, "R": rng.randrange(1, 10 ** 6), "cells": sims.code_image(sim, rng, few=rng.random() < 0.3), "N": N,
                "ops": ops + [["go", "step", 1000]], "pre": rng.choice([0, 0, 3, 17]), "cper": rng.choice([0, 1, 7, 100]), "_lists": ["ops", "cells"]}

    def trivial(self, case):
        return not any(o[0] == "brk" for o in case["ops"])

    def check(self, case, ctx):
        sim, typ = case["sim"], case["typ"]
        if not case["cells"]:
            return
        fi, ar, pre = sims.place(sim, case["cells"], True)
        ar = ["-R", str(case["R"])] + ar
        pre = pre + ["expr cperiod=%d" % case["cper"], "var nn", "expr nn=0"]
        if case["pre"]:
            pre.append("step %d" % case["pre"])
        N = case["N"]
        r, o = script.run(ctx, sim, typ, pre + ["state"] + ["step", "state"] * N, ar, fi, limit=6000000)
        c0 = script.counters(o[len(pre)] or "")
        if "pc" not in c0 or (case["pre"] and (script.stop_of(o[len(pre) - 1] or "") or (0, 0))[1] != 109):
            return
        P, inst, regs = [c0["pc"]], c0["inst"], [None]
        for i in range(N):
            a, b = o[len(pre) + 1 + 2 * i], o[len(pre) + 2 + 2 * i]
            st, c = script.stop_of(a or ""), script.counters(b or "")
            if not st or st[1] != 109 or c.get("inst") != inst + 1 or c.get("pc") != st[0]:
                break       # end of the program, an invalid instruction, or the CPU waits for an interrupt
            inst += 1
            P.append(st[0])
            regs.append(regs_of(a))
        n = len(P) - 1
        if n < 3:
            ctx.mark("short")
            return
        ctx.mark("sim_" + sim)
        ctx.mark("trace", n)
        # the model
        m = {"nn": 0}
        bps = []        # nr, addr, hit, cnt, cond, temp, cmd, tok
        t, nr, tok = 0, 0, 0
        cm, exp = list(pre), []
        code = case["cells"]
        info = lambda: [evalcond(b["cond"], m) for b in bps]

        def sim_run(t, K, cap):
            """-> (index, reason, tokens); None if it would leave the trace"""
            toks, s0, k0 = [], t, K
            i = t
            while True:
                if i >= cap:
                    return None
                if i > s0:
                    b = next((b for b in bps if b["addr"] == P[i]), None)
                    if b:
                        b["cnt"] -= 1
                        if b["cnt"] <= 0:
                            b["cnt"] = b["hit"]
                            if evalcond(b["cond"], m):
                                if b["temp"]:
                                    bps.remove(b)
                                    return i, 104, toks
                                c = b["cmd"]
                                if c and c[0] == "tok":
                                    toks.append(c[1])
                                elif c and c[0] == "del":
                                    toks.append(c[1])
                                    bps.remove(b)
                                elif c and c[0] == "delall":
                                    toks.append(c[1])
                                    bps.clear()
                                elif c and c[0] == "step":
                                    toks.append(c[1])
                                    s0, k0 = i, c[2]
                                    ctx.mark("continued")
                                    # execution goes on for c[2] instructions from here
                                    i += 1
                                    if k0 == 1:
                                        return (i, 109, toks) if i <= cap else None
                                    continue
                                return i, 104, toks
                i += 1
                if k0 and i - s0 >= k0:
                    return (i, 109, toks) if i <= cap else None

        import copy
        for op in case["ops"]:
            k = op[0]
            if k == "brk":
                a = P[op[2] % len(P)] if op[2] % 5 else P[op[2] // 7 % len(P)] + 1
                if a < 0 or a >= 0x10000:
                    continue
                cm.append("%s 0x%x%s%s" % ("tbreak" if op[1] else "break", a, "" if op[3] is None else " %d" % op[3], "" if op[4] is None else ' if "%s"' % op[4]))
                if any(b["addr"] == a for b in bps):
                    exp.append((len(cm) - 1, "already", None))
                    continue
                nr = nr + 1 if bps else 1
                bps.append({"nr": nr, "addr": a, "hit": op[3] or 1, "cnt": op[3] or 1, "cond": op[4], "temp": op[1], "cmd": None})
                exp.append((len(cm) - 1, "set", nr))
            elif k == "cmd":
                if not bps:
                    continue
                b = bps[op[1] % len(bps)]
                if b["temp"]:
                    continue
                tok += 1
                b["cmd"] = {"tok": ["tok", tok], "step": ["step", tok, op[3]], "del": ["del", tok], "delall": ["delall", tok]}[op[2]]
                b["cmdtext"] = "expr 5000000+%d" % tok + {"tok": "", "step": ";step %d" % op[3], "del": ";delete %d" % b["nr"], "delall": ";delete"}[op[2]]
                cm.append('commands %d "%s"' % (b["nr"], b["cmdtext"]))
            elif k == "clear":
                if not bps:
                    continue
                b = bps[op[1] % len(bps)]
                cm.append("clear 0x%x" % b["addr"])
                bps.remove(b)
            elif k == "del":
                if not bps:
                    continue
                b = bps[op[1] % len(bps)]
                cm.append("delete %d" % b["nr"])
                bps.remove(b)
            elif k == "delall":
                if op[1] % 3:
                    continue
                cm.append("delete")
                bps.clear()
            elif k == "info":
                cm.append("info breakpoints")
                conds = info()
                exp.append((len(cm) - 1, "info", [(b["nr"], b["temp"], b["hit"], b["cnt"], b["addr"], c) for b, c in zip(bps, conds)]))
            else:
                sv = copy.deepcopy((bps, m, nr))
                if k == "go":
                    K = 0 if op[1] == "run" else op[2]
                    line = "run" if not K else "step %d" % K
                elif k == "runto":
                    cand = [a for a in P[t + 1:] if not any(b["addr"] == a for b in bps) and 0 <= a < 0x10000 and a != P[t]]
                    if not cand:
                        continue
                    a = cand[op[1] % len(cand)]
                    nr = nr + 1 if bps else 1
                    bps.append({"nr": nr, "addr": a, "hit": 1, "cnt": 1, "cond": None, "temp": True, "cmd": None})
                    K, line = 0, "run 0x%x 0x%x" % (P[t], a)
                else:       # next
                    if sim != "s51" or P[t] >= 0x8000:
                        continue
                    op0 = code[P[t] % len(code)] if P[t] < len(code) * (0x10000 // len(code)) else None
                    if op0 is None:
                        continue
                    L = 3 if op0 == 0x12 else 2 if op0 & 0x1f == 0x11 else 0
                    line, K = "next", 1
                    if L:
                        K = 0
                        a = P[t] + L
                        if not any(b["addr"] == a for b in bps):
                            nr = nr + 1 if bps else 1
                            bps.append({"nr": nr, "addr": a, "hit": 1, "cnt": 1, "cond": None, "temp": True, "cmd": None})
                        ctx.mark("next_call")
                z = sim_run(t, K, n)
                if z is None:
                    bps, m, nr = copy.deepcopy(sv)
                    if k != "go":
                        continue
                    K = n - t
                    if op[1] != "run" and op[2] < K or K <= 0:
                        continue
                    line = "step %d" % K
                    z = sim_run(t, K, n)
                    if z is None:
                        bps, m, nr = copy.deepcopy(sv)
                        continue
                cm.append(line)
                exp.append((len(cm) - 1, "stop", z))
                t = z[0]
                ctx.mark("bpstop" if z[1] == 104 else "stepstop")
        cm += ["info breakpoints", "state"]
        conds = info()
        exp.append((len(cm) - 2, "info", [(b["nr"], b["temp"], b["hit"], b["cnt"], b["addr"], c) for b, c in zip(bps, conds)]))
        r, o = script.run(ctx, sim, typ, cm, ar, fi, limit=6000000, must_end=False)
        crashcheck(r)
        for i, what, v in exp:
            g = o[i]
            if g is None:
                raise Viol("script", f"no answer to {cm[i]!r}")
            if what == "set":
                if "Breakpoint %d at" % v not in g:
                    raise Viol("set", f"{cm[i]!r} answered {g.strip()!r}, expected breakpoint number {v}")
            elif what == "already":
                if "already set" not in g:
                    raise Viol("dup", f"{cm[i]!r}: a breakpoint is set there already, answer: {g.strip()!r}")
            elif what == "info":
                got = []
                for line in g.split("\n"):
                    q = re.match(r"\0*(\d+)\s+fetch\s+(keep|del)\s+(\d+)\s+(-?\d+)\s+0x([0-9a-f]+) (true|false)", line)
                    if q:
                        got.append((int(q[1]), q[2] == "del", int(q[3]), int(q[4]), int(q[5], 16), q[6] == "true"))
                if got != v:
                    raise Viol("info", f"{sim}: breakpoints (nr, temporary, hit, count left, address, condition) are {got}, expected {v}")
            else:
                st = script.stop_of(g)
                want = (P[v[0]], v[1])
                if st != want:
                    raise Viol("stop:%d" % v[1], f"{sim} {typ}: {cm[i]!r} stopped at {st and (hex(st[0]), st[1])}, expected {(hex(want[0]), want[1])} (instruction {v[0]} of the trace)")
                tk = [int(x) - 5000000 for x in re.findall(r"^50\d{5}$", g, re.M)]
                if tk != v[2]:
                    raise Viol("commands", f"{sim}: {cm[i]!r}: breakpoint commands run {tk}, expected {v[2]}")
                if regs[v[0]] is not None and regs_of(g) != regs[v[0]]:
                    raise Viol("regs", f"{sim}: registers at the stop {regs_of(g)!r}, in the trace {regs[v[0]]!r}")
        c = script.counters(o[-1] or "")
        if c.get("inst") != c0["inst"] + t or c.get("pc") != P[t]:
            raise Viol("count", f"{sim}: {c.get('inst')} instructions executed, expected {c0['inst'] + t}; PC {c.get('pc')} expected {P[t]}")


PROP = P()
