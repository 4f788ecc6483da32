"""C23: a run stops at the first instruction boundary where its stop condition holds."""
from ..core import Viol
from .. import script, sims

# per machine: type, frequency choices, init code, simple instructions, call(addr), return, jump(addr), jump to itself
M = {
    "s51": dict(typ=["C52", "C51", "DS320", "89C51R"], init=[0x75, 0x81, 0x40], simple=[[0x04], [0x08], [0x74, -1], [0x24, -1], [0x7a, -1], [0x00], [0xa4], [0x84], [0x75, 0x30, -1], [0xe5, 0x31], [0xf0], [0xe0], [0x05, 0x33]],
                call=lambda a: [0x12, a >> 8, a & 255], ret=[0x22], jmp=lambda a: [2, a >> 8, a & 255], self=[0x80, 0xfe], rep=[]),
    "z80": dict(typ=["Z80", "Z180", "R800", "Z80N"], init=[0x31, 0, 0xff], simple=[[0x3c], [0x04], [0x0c], [0x3e, -1], [0xc6, -1], [0x00], [0x32, -1, 0x82], [0x3a, -1, 0x82], [0x21, -1, 0x83], [0x34], [0xcb, 0x27]],
                call=lambda a: [0xcd, a & 255, a >> 8], ret=[0xc9], jmp=lambda a: [0xc3, a & 255, a >> 8], self=[0x18, 0xfe], rep=[0x21, 0, 0x83, 0x11, 0, 0x84, 0x01, 5, 0, 0xed, 0xb0]),
    "i8085": dict(typ=["I8085", "I8080"], init=[0x31, 0, 0xff], simple=[[0x3c], [0x04], [0x0c], [0x3e, -1], [0xc6, -1], [0x00], [0x32, -1, 0x82], [0x3a, -1, 0x82], [0x21, -1, 0x83], [0x34]],
                  call=lambda a: [0xcd, a & 255, a >> 8], ret=[0xc9], jmp=lambda a: [0xc3, a & 255, a >> 8], self=None, rep=[]),
    "mos6502": dict(typ=["6502", "65C02", "65C02S"], init=[0xa2, 0xff, 0x9a], simple=[[0xe8], [0xc8], [0xa9, -1], [0x69, -1], [0xa0, -1], [0xea], [0x8d, -1, 3], [0xad, -1, 3], [0xee, -1, 3], [0xe6, 0xf8]],
                    call=lambda a: [0x20, a & 255, a >> 8], ret=[0x60], jmp=lambda a: [0x4c, a & 255, a >> 8], self=None, rep=[]),
    "stm8": dict(typ=["STM8S", "S003", "STM8L", "AF52"], init=[0x9d], simple=[[0x4c], [0x5c], [0xa6, -1], [0xab, -1], [0x9d], [0xc7, 2, -1], [0xc6, 2, -1], [0x42], [0x3c, 0x40]],
                 call=lambda a: [0xcd, a >> 8, a & 255], ret=[0x81], jmp=lambda a: [0xcc, a >> 8, a & 255], self=[0x20, 0xfe], rep=[]),
    "m6809": dict(typ=["M6809"], init=[0x10, 0xce, 0x20, 0], simple=[[0x4c], [0x5c], [0x86, -1], [0x8b, -1], [0x12], [0xb7, 0x21, -1], [0xb6, 0x21, -1], [0x3d], [0x7c, 0x21, -1]],
                  call=lambda a: [0xbd, a >> 8, a & 255], ret=[0x39], jmp=lambda a: [0x7e, a >> 8, a & 255], self=[0x20, 0xfe], rep=[]),
    "m68hc11": dict(typ=["HC11"], init=[0x8e, 0x20, 0], simple=[[0x4c], [0x5c], [0x86, -1], [0x8b, -1], [0x01], [0xb7, 0x21, -1], [0xb6, 0x21, -1], [0x3d], [0x7c, 0x21, -1]],
                    call=lambda a: [0xbd, a >> 8, a & 255], ret=[0x39], jmp=lambda a: [0x7e, a >> 8, a & 255], self=[0x20, 0xfe], rep=[]),
    "m6800": dict(typ=["M6800", "M6801"], init=[0x8e, 0x20, 0], simple=[[0x4c], [0x5c], [0x86, -1], [0x8b, -1], [0x01], [0xb7, 0x21, -1], [0xb6, 0x21, -1], [0x7c, 0x21, -1]],
                  call=lambda a: [0xbd, a >> 8, a & 255], ret=[0x39], jmp=lambda a: [0x7e, a >> 8, a & 255], self=[0x20, 0xfe], rep=[]),
    "m68hc08": dict(typ=["HC08", "HCS08"], org=0x1000, init=[0x9b], simple=[[0x4c], [0x5c], [0xa6, -1], [0xab, -1], [0x9d], [0xc7, 2, -1], [0xc6, 2, -1], [0x42], [0x3c, 0xa0]],
                    call=lambda a: [0xcd, a >> 8, a & 255], ret=[0x81], jmp=lambda a: [0xcc, a >> 8, a & 255], self=[0x20, 0xfe], rep=[]),
    "st7": dict(typ=["st7"], org=0x1000, init=[0x9b], simple=[[0x4c], [0x5c], [0xa6, -1], [0xab, -1], [0x9d], [0xc7, 2, -1], [0xc6, 2, -1], [0x42], [0x3c, 0xa0]],
                call=lambda a: [0xcd, a >> 8, a & 255], ret=[0x81], jmp=lambda a: [0xcc, a >> 8, a & 255], self=[0x20, 0xfe], rep=[]),
}
UNITS = {"clk": "total", "s": "t", "sec": "t", "ms": "t", "msec": "t", "us": "t", "usec": "t", "ns": "t", "nsec": "t", "vclk": "vclk", "fclk": "fetch", "fetch": "fetch", "rclk": "read", "read": "read", "wclk": "write", "write": "write"}
SCALE = {"s": 1, "sec": 1, "ms": 1e-3, "msec": 1e-3, "us": 1e-6, "usec": 1e-6, "ns": 1e-9, "nsec": 1e-9}


def org(sim):
    return M[sim].get("org", sims.SIMS[sim][2])


def program(case):
    """-> code bytes, set of call instruction addresses -> length"""
    m, base = M[case["sim"]], org(case["sim"])
    import random
    r = random.Random(case["prog"])
    nsub = len(case["subs"])
    # two passes: sizes do not depend on addresses
    start = [0] * (nsub + 1)
    for _ in (0, 1):
        r.seed(case["prog"])
        code, calls = list(m["init"]), {}
        loop = base + len(code)
        for k, body in enumerate([case["main"]] + case["subs"]):
            start[k] = base + len(code)
            for it in body:
                if it == "c":
                    j = [x for x in range(k + 1, nsub + 1)]
                    if j:
                        x = m["call"](start[r.choice(j)])
                        calls[base + len(code)] = len(x)
                        code += x
                elif it == "s":
                    code += m["self"] or []
                elif it == "r":
                    code += m["rep"]
                else:
                    code += [r.randrange(256) if x < 0 else x for x in m["simple"][it % len(m["simple"])]]
            code += m["jmp"](loop) if k == 0 else m["ret"]
    return code, calls


class P:
    ID = "C23"
    RULE = ("One case = one program with subroutines and a history of `step`, `step N unit`, `next`, `run from to` and `run` up to a breakpoint or a jump to itself; every stop must be where the trace of "
            "single steps first fulfils the condition.")
    QUICK_S = 40
    THOROUGH_S = 600
    LEVEL = "exploration"
    SIMS = sorted(M)
    ASSUME = ["which instructions are calls is known from the generated program"]

    def gen(self, rng, tier):
        sim = rng.choice(sorted(M))
        body = lambda: [rng.choice(["c", "c", rng.randrange(99), rng.randrange(99), rng.randrange(99), "r"]) for _ in range(rng.randrange(1, 7))]
        subs = [body() for _ in range(rng.randrange(0, 5))]
        sj = rng.random() < .25
        main = body() + ["c"]
        if sj or rng.random() < .1:
            b = rng.choice([main] + subs)
            b.insert(rng.randrange(len(b) + 1), "s")
        ops = []
        for _ in range(rng.randrange(2, 14)):
            k = rng.random()
            if k < .08:
                o = ["brk", rng.randrange(1, 40)]
            elif k < .2:
                o = ["step", rng.choice([1, 1, 2, 3, 7, 20, 60])]
            elif k < .55:
                u = rng.choice(sorted(UNITS))
                o = ["unit", rng.choice([0, 1, 1, 2, 3, 5, 10, 24, 37, 100, 333]) * (rng.choice([1, 100, 1000]) if u[0] == "n" else 1), u]
            elif k < .75:
                o = ["next"]
            elif k < .87:
                o = ["to", rng.randrange(1, 90)]
            else:
                o = ["run", "run", rng.randrange(1, 90)]
            # a breakpoint somewhere on the way (not for those which place one)
            brk = rng.randrange(1, 40) if o[0] in ("step", "unit") and rng.random() < .25 else 0
            ops.append([o, brk])
        return dict(sim=sim, typ=rng.choice(M[sim]["typ"]), xtal=rng.choice([None, "1M", "12M", "11059200", "32768", "4M", "16M"]), prog=rng.randrange(10 ** 6), main=main, subs=subs, sj=sj, ops=ops, pre=rng.choice([0, 0, 1, 5]), _lists=["ops", "main"])

    def shrink(self, case):
        if case["xtal"]:
            yield dict(case, xtal=None)
        if case["subs"]:
            yield dict(case, subs=case["subs"][:-1])
            yield dict(case, subs=[b[:1] for b in case["subs"]])

    def check(self, case, ctx):
        sim, typ = case["sim"], case["typ"]
        m = M[sim]
        code, calls = program(case)
        fi, ar, pre = sims.place(sim, code, False)
        if "org" in m:
            fi, pre = [("p.ihx", sims.ihex(code, org(sim)))], ["fill rom 0 0xff 0", "step 1", "pc 0x%x" % org(sim)]
        ar = ["-R", "5"] + (["-X", case["xtal"]] if case["xtal"] else []) + ar
        # the trace: one instruction at a time
        n = 400
        r, o = script.run(ctx, sim, typ, pre + ["state"] + ["step 1", "state"] * n, ar, fi)
        tr = [script.counters(x or "") for x in o[len(pre)::2]]
        for i, x in enumerate(o[len(pre) + 1::2]):
            st = script.stop_of(x or "")
            if st is None or st[1] != 109:
                n = i
                break
        if n < 20:
            ctx.mark("short_" + sim)
            return
        tr = tr[:n + 1]
        hz = float(script.re.search(r"frequency= (\d+)", o[len(pre)]).group(1))
        for i, t in enumerate(tr):
            t["t"] = (t["total"]) / hz
        pc = [t["pc"] for t in tr]
        # with jump-to-itself stop: boundaries where such an instruction was done
        sj = [i for i in range(1, n + 1) if pc[i] == pc[i - 1] and code[pc[i] - org(sim)] != 0xed] if case["sj"] else []
        cmds = ['set option "selfjump_stop" true'] if case["sj"] else []
        i = 0
        want = []
        if case["pre"]:
            want.append((len(cmds), "step %d" % case["pre"], case["pre"], None))
            cmds += ["step %d" % case["pre"], "state"]
            i = case["pre"]
            if sj and sj[0] <= i:
                return
        fix = set()     # breakpoints which stay
        for op, brk in case["ops"]:
            bp = None
            if op[0] == "brk":
                if i + op[1] > n:
                    continue
                a = pc[i + op[1]]
                cmds.append("%s 0x%x" % ("clear" if a in fix else "break", a))
                fix ^= {a}
                ctx.mark("brk")
                continue
            if brk and i + brk <= n and pc[i + brk] != pc[i] and pc[i + brk] not in fix:
                bp = pc[i + brk]
            k, lo, hi = op[0], None, None
            if k == "step":
                hi = lo = i + op[1]
            elif k == "unit":
                u, v = UNITS[op[2]], op[1]
                if u == "t":
                    # duration in whole clocks: one less is tolerated
                    c = v * SCALE[op[2]] * hz
                    u, vs = "total", (max(0, int(c - 1e-6)), c + 1e-6)
                else:
                    vs = (v, v)
                f = lambda v: next((j for j in range(i + 1, n + 1) if tr[j][u] - tr[i][u] >= v), None)
                lo, hi = f(vs[0]), f(vs[1])
            elif k == "next":
                if pc[i] in calls:
                    a = pc[i] + calls[pc[i]]
                    lo = hi = next((j for j in range(i + 1, n + 1) if pc[j] == a), None)
                else:
                    lo = hi = i + 1
            elif k in ("to", "run"):
                if i + op[-1] > n or pc[i + op[-1]] == pc[i]:
                    continue
                a = pc[i + op[-1]]
                if a in fix:
                    continue
                lo = hi = next((j for j in range(i + 1, n + 1) if pc[j] == a), None)
            own = k == "next" and pc[i] in calls and a not in fix or k == "to"
            if bp is not None or fix:
                b = next((j for j in range(i + 1, n + 1) if pc[j] == bp or pc[j] in fix), None)
                if b is not None and (lo is None or b < lo) and own:
                    continue        # the breakpoint they placed would stay
                if b is not None and lo is not None and b <= lo or b is not None and lo is None:
                    lo = hi = b
                elif b is not None and hi is not None and b < hi:
                    continue
            s = next((j for j in sj if j > i), None)
            if s is not None and (lo is None or s < lo):
                if own:
                    continue
                lo = hi = s
            if lo is None or hi is None or hi > n:
                continue
            if lo != hi:
                continue
            if bp is not None:
                cmds.append("break 0x%x" % bp)
            c = {"step": lambda: "step %d" % op[1], "unit": lambda: "step %d %s" % (op[1], op[2]), "next": lambda: "next", "to": lambda: "run 0x%x 0x%x" % (pc[i], a), "run": lambda: op[1]}[k]()
            if k == "run":
                cmds.append("break 0x%x" % a)
            want.append((len(cmds), c, lo, bp))
            cmds += [c, "state"]
            if bp is not None or k == "run":
                cmds.append("clear 0x%x" % (a if k == "run" else bp))
            ctx.mark(k)
            i = lo
        if not want:
            return
        cmds += ["clear 0x%x" % a for a in sorted(fix)]
        r, o = script.run(ctx, sim, typ, pre + cmds + ["info breakpoints"], ar, fi)
        o = o[len(pre):]
        for j, c, x, bp in want:
            st, ct = script.stop_of(o[j] or ""), script.counters(o[j + 1] or "")
            if st is None:
                raise Viol("nostop:" + c.split()[0], "%s %s: `%s` at %d: no stop message, the trace says it stops after instruction %d" % (sim, typ, c, j, x))
            if "write" not in ct:
                raise Viol("nostate", "%s %s: no answer after `%s`" % (sim, typ, c))
            if st[0] != pc[x] or any(ct[q] != tr[x][q] for q in ("pc", "inst", "total")):
                raise Viol("place:" + c.split()[0] + ("+unit" if len(c.split()) > 2 else ""), "%s %s: `%s`%s stopped at 0x%x after %d instructions and %d clocks (reason %d), the condition first holds at 0x%x after %d instructions and %d clocks" % (
                    sim, typ, c, " with a breakpoint at 0x%x" % bp if bp is not None else "", st[0], ct["inst"], ct["total"], st[1], pc[x], tr[x]["inst"], tr[x]["total"]))
        if script.re.search(r"^\s*\d+ +fetch", o[-1] or "", script.re.M | script.re.I):
            raise Viol("left", "%s %s: breakpoints left behind:\n%s" % (sim, typ, o[-1]))
        ctx.ticks += tr[i]["total"]


PROP = P()
