"""C24: whatever the guest program does, the simulator survives it, stays responsive, and touches no memory that is not its own."""
import re
import subprocess
from ..core import Viol, crashcheck
from .. import script, sims, uart
from . import c02

MORE = {"i8048": "I8021 I8022 I8035 I8039 I8040 I8048 I8049 I8050 I8041 I8041A I8041AH I8042 I80C42", "m68hc08": "HC08 HCS08", "mos6502": "65C02S 6502 7501 65C02 6510 8502 HUC6280",
        "pdk": "PDK14 PDK13 PDK15 PDK16 PES501 PFC151 PFC154 PFS154 PFS173 PMS150C PMS154 PMS171B PMS131", "rxk": "R2K R3KA R3K R4K R5K R6K",
        "s51": "C52 51 31 C51 F380 51RA 51RC C51R 89C51R C521 521 251 C251 517 C517 88X 886 XC888 DS320 DS390 DS390F",
        "stm8": "STM8S S903 S003 S105 SDISC S208 AF52 AF62_12 AF62_46 STM8L AL3xE AL3x8 AL3x346 L051 L052C L052R L151x23 L15x46 LDISC L15x8 L162 L101",
        "tlcs": "TLCS90 TLCS870C TLCS870C1", "z80": "Z80 Z180 GB80 LR35902 EZ80 Z80N R800", "xa": "xa", "oisc": "EM OISC URISC MISC16", "pblaze": "KCPSM3 KCPSM6",
        "p1516": "P1516 P2223"}
NAMES = list(sims.NAMES) + ["xa"]


def types(sim):
    return MORE[sim].split() if sim in MORE else sims.SIMS[sim][0]


AFTER = ["info registers", "state", "info stack", "dis", "info breakpoints", "info memory", "info timers", "info vars", "step 1", "history l", "info hw"]

# where peripherals with a programming sequence live
BURST = {"s51": [0xe9, 0xe9, 0xb2, 0xb2, 0x88, 0x98, 0xc8, 0xd8, 0xda], "stm8": [0x505a, 0x5062, 0x50c0, 0x5230, 0x5250, 0x5300, 0x5320, 0x5340, 0x50d1, 0x50e0, 0x5280, 0x52b0, 0x52e0],
         "avr": [0x20, 0x40, 0x50], "m68hc11": [0x1000, 0x1020, 0x1028], "rxk": [0x10, 0xa0, 0xc0], "pdk": [1, 3, 6, 10]}

MDU = {"517": 0xe9, "C517": 0xe9, "88X": 0xb2, "886": 0xb2, "XC888": 0xb2}


def sanreport(r):
    t = r.stderr_real.decode("latin1")
    if "AddressSanitizer" not in t and "runtime error" not in t:
        return None
    k = re.search(r"AddressSanitizer:? ?([a-z-]+)", t) or re.search(r"runtime error: (.{1,60})", t)
    at = re.findall(r"#\d+ 0x[0-9a-f]+ +\((\S+ucsim_\w+)\+(0x[0-9a-f]+)\)", t)[:8]
    fr = []
    if at:
        q = subprocess.run(["addr2line", "-C", "-f", "-s", "-e", at[0][0]] + [a for _, a in at if _ == at[0][0]], stdout=subprocess.PIPE, text=True).stdout.splitlines()
        fr = [(re.sub(r"\(.*", "", f), l.split(" ")[0]) for f, l in zip(q[::2], q[1::2])]
    return (k[1] if k else "?"), fr, t


class P:
    ID = "C24"
    RULE = ("Random guest programs (sampled instructions, random bytes, mixtures; memory and registers random) on every simulator and 120 CPU types, with peripherals' registers randomised, UART inputs and "
            "tick hardware attached; run in pieces with inspection after. The simulator must answer every later command, die of nothing, loop in nothing; part of the runs are made "
            "by a build that traps out-of-bounds and use-after-free accesses, null dereferences and divisions by zero.")
    QUICK_S = 50
    THOROUGH_S = 1200
    VARIANTS = ["plain", "san"]

    def gen(self, rng, tier):
        sim = rng.choice(NAMES + ["s51", "stm8", "rxk", "z80"])
        typ = rng.choice(types(sim))
        peri = rng.random() < .12
        if peri:
            sim = rng.choice(["s51", "s51"] + list(BURST))
            typ = rng.choice(types(sim) if sim != "s51" else types(sim) + ["517", "88X", "C517", "XC888", "517", "88X"])
        kind = rng.choice(["pool", "pool", "random", "mixed", "mixed"])
        n = rng.choice([8, 40, 200, 900])
        cb = 1 if sim == "xa" else sims.SIMS[sim][4]
        top = 1 << (8 * cb)
        cells = []
        if kind != "random" and sim != "xa":
            cells = sims.code_image(sim, rng)
        if kind != "pool" or sim == "xa":
            rnd = [rng.choice([rng.randrange(top), rng.randrange(256), top - 1, 0]) if rng.random() < .3 else rng.randrange(top) for _ in range(n)]
            i = rng.randrange(len(cells) + 1)
            cells = cells[:i] + rnd + cells[i:]
        sp = sims.SIMS[sim][5] if sim in sims.SIMS else [("rom", 0, 0xff, 1)]
        pokes, mid = [], []
        for k in range(rng.choice([0, 2, 10, 40])):
            s = rng.choice(sp)
            lo, hi = s[1], s[2]
            if sim == "stm8" and rng.random() < .6:
                lo, hi = 0x5000, 0x57ff
            (pokes if k % 4 else mid).append([s[0], rng.randrange(lo, hi + 1), rng.choice([0, 1, 0xff, rng.randrange(256), rng.randrange(256)])])
        for _ in range(rng.choice([0, 1, 3] if not peri else [5, 15, 40]) if sim in BURST else 0):
            # a peripheral programmed register after register, with corner values
            st, pal = rng.choice(BURST[sim]), [rng.choice([0, 0, 1, 0x80, 0x7f, 0xff, rng.randrange(256)]) for _ in range(rng.choice([1, 2, 8]))]
            if typ in MDU and rng.random() < .7:
                st = MDU[typ]
            spn = {"s51": "sfr", "rxk": "ioi", "pdk": "regs8", "avr": "iram"}.get(sim, sp[0][0])
            seq = [a for a in range(st, st + rng.choice([4, 6, 6, 7, 12])) if rng.random() < .9]
            if len(seq) > 5 and rng.random() < .4:
                del seq[2:4]
            to = mid if mid and rng.random() < .3 else pokes
            to += [[spn, a, rng.choice(pal)] for a in seq]
            to += [[spn, st - 1, 0], [spn, st - 1, rng.choice([0xff, rng.randrange(256), 0x10 | rng.randrange(9)])]]
        return {"sim": sim, "typ": typ, "R": rng.randrange(1, 10 ** 6), "cells": cells, "fill": rng.random() < .6, "pokes": pokes, "steps": [rng.choice([1, 10, 300, 3000, 10000]) for _ in range(rng.choice([1, 2, 4]))],
                "pc": rng.choice([None, None, None, rng.randrange(0x10000)]), "uart": rng.random() < .4, "mid": mid, "reset": rng.random() < .1, "bp": [rng.randrange(0x200) for _ in range(rng.choice([0, 0, 3]))],
                "after": rng.sample(range(len(AFTER)), 4), "san": rng.random() < .35, "_lists": ["cells", "pokes", "mid", "steps", "bp", "after"]}

    def shrink(self, case):
        if case["uart"]:
            yield dict(case, uart=False)
        if case["reset"]:
            yield dict(case, reset=False)
        if case["fill"]:
            yield dict(case, fill=False)
        for i, k in enumerate(case["steps"]):
            if k > 1:
                for m in (1, k // 10, k // 2):
                    if 0 < m < k:
                        yield dict(case, steps=case["steps"][:i] + [m] + case["steps"][i + 1:])

    def check(self, case, ctx):
        sim, typ = case["sim"], case["typ"]
        if not case["cells"]:
            return
        fi, ar, pre = [], [], []
        if sim == "xa":
            fi, ar, pre = [("p.ihx", sims.ihex_rep(case["cells"], 0, max(1, (0x4000 if case["fill"] else 1) // len(case["cells"]))))], ["p.ihx"], ["pc 0x0"]
        else:
            fi, ar, pre = sims.place(sim, case["cells"], case["fill"])
        fi, ar = list(fi), ["-R", str(case["R"])] + list(ar)
        if case["uart"] and sim in ("s51", "stm8", "m6800", "m6809", "m68hc11", "m68hc12", "p1516", "oisc", "z80"):
            fi.append(("u.in", bytes((case["R"] * (i + 7) >> 3) & 255 for i in range(300))))
            ar = ["-S", ("in=u.in,out=u.out" if sim not in ("m6800", "m6809", "m68hc11") else "uart=0,in=u.in,out=u.out")] + ar
            if sim == "stm8":
                ar[1] = "uart=1,in=u.in,out=u.out"
            if sim == "z80" and case["R"] % 2:
                pre = pre + ["set hardware pc16550[0] rom 0x%x" % (case["R"] & 0xfff0 & 0xffff)]
        pre = pre + ["set mem %s 0x%x 0x%x" % tuple(p) for p in case["pokes"]]
        if case["pc"] is not None:
            pre.append("pc 0x%x" % case["pc"])
        pre += ["break 0x%x" % b for b in case["bp"]]
        after = [AFTER[i] for i in case["after"]]
        after = ["info hw %s" % h for h in c02.HW.get(sim, ["cpu[0]"])[:6]] if "info hw" in after else after
        cm = pre
        for i, k in enumerate(case["steps"]):
            cm = cm + ["step %d" % k] + ["set mem %s 0x%x 0x%x" % tuple(p) for p in case["mid"][i::len(case["steps"])]]
            if case["reset"] and i == 0:
                cm = cm + ["reset"]
        cm = cm + after + ["expr 1234567+1"]
        variant = "san" if case["san"] else "plain"
        r, o = script.run(ctx, sim, typ, cm, ar, fi, must_end=False, variant=variant, limit=5000000)
        ctx.mark(f"{variant}_{sim}")
        if case["san"]:
            s = sanreport(r)
            if s:
                where = "|".join("%s@%s" % (a, b) for a, b in s[1])
                raise Viol("memory:" + s[0] + ":" + (s[1][0][0] if s[1] else "?"), f"{sim} {typ}: {s[0]} in {where}\n{s[2][:1500]}")
        crashcheck(r, sig=f"{sim}")
        if not o or o[-1] is None or "1234568" not in o[-1]:
            raise Viol("unresponsive", f"{sim} {typ}: no answer after the run: {r.text[-200:]!r}")
        c = script.counters("".join(x or "" for x in o))
        ctx.ticks += c.get("total", 0)


PROP = P()
