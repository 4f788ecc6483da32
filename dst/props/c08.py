"""C08: event breakpoints: exactly the accesses of executed instructions count; observers (event breakpoints, VCD variables) change nothing."""
import re
from ..core import Viol, crashcheck
from .. import script, sims
from . import c02

RES = 110


def w16(a):
    return [a >> 8 & 255, a & 255]


def l16(a):
    return [a & 255, a >> 8 & 255]


# ---- templates: sim -> (type, code origin, [data addresses by class], stack setup, templates)
# a template: name -> function(R) -> (bytes of one or more instructions, [accesses of each instruction]); access = (space, addr, 'r'|'w')
class R:
    def __init__(s, rng_ints, st):
        s.v, s.i, s.st = rng_ints, 0, st

    def n(s, k):
        s.i += 1
        return s.v[s.i % len(s.v)] // (1 + s.i % 7) % k


def s51(t, r, st):
    d = [0x30, 0x31, 0x45, 0x7f, 0xf0, 0x83][r.n(6)]
    e = [0x30, 0x32, 0x46, 0xf0][r.n(4)]
    sp = lambda a: ("sfr" if a >= 0x80 else "iram", a)
    x = [0x10, 0x1234, 0x8000][r.n(3)]
    i = [0x30, 0x45, 0x90, 0xff][r.n(4)]
    v = r.n(256)
    D = sp(d)
    T = {
        "mov_a_d": lambda: ([0xe5, d], [[D + ("r",)]]), "mov_d_i": lambda: ([0x75, d, v], [[D + ("w",)]]),
        "mov_d_a": lambda: ([0xf5, d], [[D + ("w",)]]), "mov_d_d": lambda: ([0x85, e, d], [[sp(e) + ("r",), D + ("w",)]]),
        "inc_d": lambda: ([0x05, d], [[D + ("r",), D + ("w",)]]), "dec_d": lambda: ([0x15, d], [[D + ("r",), D + ("w",)]]),
        "anl_d_a": lambda: ([0x52, d], [[D + ("r",), D + ("w",)]]), "orl_d_i": lambda: ([0x43, d, v], [[D + ("r",), D + ("w",)]]),
        "add_a_d": lambda: ([0x25, d], [[D + ("r",)]]), "xch": lambda: ([0xc5, d], [[D + ("r",), D + ("w",)]]),
        "cjne": lambda: ([0xb5, d, 0], [[D + ("r",)]]), "djnz": lambda: ([0xd5, d, 0], [[D + ("r",), D + ("w",)]]),
        "mov_a_ri": lambda: ([0x78, i, 0xe6], [[], [("iram", i, "r")]]), "mov_ri_i": lambda: ([0x79, i, 0x77, v], [[], [("iram", i, "w")]]),
        "inc_ri": lambda: ([0x78, i, 0x06], [[], [("iram", i, "r"), ("iram", i, "w")]]),
        "movx_r": lambda: ([0x90] + w16(x) + [0xe0], [[], [("xram", x, "r")]]), "movx_w": lambda: ([0x90] + w16(x) + [0xf0], [[], [("xram", x, "w")]]),
        "nop": lambda: ([0], [[]]),
    }
    if t == "pushpop":
        s = st["sp"] + 1 & 255
        return [0xc0, d, 0xd0, e], [[D + ("r",), ("iram", s, "w")], [("iram", s, "r"), sp(e) + ("w",)]]
    return T[t]()


s51.T = ["mov_a_d", "mov_d_i", "mov_d_a", "mov_d_d", "inc_d", "dec_d", "anl_d_a", "orl_d_i", "add_a_d", "xch", "cjne", "djnz", "mov_a_ri", "mov_ri_i", "inc_ri",
         "movx_r", "movx_w", "nop", "pushpop"]


def gen16(tab, addrs, order, space="rom", push=None):
    """templates of the one-address-space CPUs; tab: name -> (bytes before, kind, bytes after), kind d: data address 16 bit, z: 8 bit, n: none;
       accesses as string over r R(next cell) w W"""
    def f(t, r, st):
        if t == "push":
            b, acc = push(st["sp"])
            return b, acc
        pre, kind, post, acc = tab[t]
        a = addrs[r.n(len(addrs))]
        if kind == "z":
            a = [x for x in addrs if x < 0x100][r.n(len([x for x in addrs if x < 0x100]))]
        ab = order(a) if kind == "d" else [a] if kind == "z" else []
        post = [r.n(256) if x is None else x for x in post]
        A = [[(space, a + (c in "RW"), c.lower()) for c in y] for y in acc.split("|")]
        return list(pre) + ab + post, A
    f.T = list(tab) + (["push"] if push else [])
    return f


DA = [0x40, 0x41, 0x7e, 0x2000, 0x2001, 0x20ff, 0x3456]
z80 = gen16({"ld_a_m": ([0x3a], "d", [], "r"), "ld_m_a": ([0x32], "d", [], "w"), "ld_hl_m": ([0x2a], "d", [], "rR"), "ld_m_hl": ([0x22], "d", [], "wW"),
             "ld_a_hl": ([0x21], "d", [0x7e], "|r"), "ld_hl_n": ([0x21], "d", [0x36, None], "|w"), "inc_hl": ([0x21], "d", [0x34], "|rw"),
             "bit": ([0x21], "d", [0xcb, 0x46], "|r"), "set": ([0x21], "d", [0xcb, 0xc6], "|rw"), "add": ([0x21], "d", [0x86], "|r"), "nop": ([0], "n", [], ""),
             "ld_bc_m": ([0xed, 0x4b], "d", [], "rR"), "rl": ([0x21], "d", [0xcb, 0x16], "|rw"), "ld_de": ([0x11], "d", [0x1a], "|r"), "ld_de_w": ([0x11], "d", [0x12], "|w")},
            DA, l16, push=lambda s: ([0xe5, 0xc1], [[("rom", s - 1, "w"), ("rom", s - 2, "w")], [("rom", s - 2, "r"), ("rom", s - 1, "r")]]))
i8085 = gen16({"lda": ([0x3a], "d", [], "r"), "sta": ([0x32], "d", [], "w"), "lhld": ([0x2a], "d", [], "rR"), "shld": ([0x22], "d", [], "wW"),
               "mov_a_m": ([0x21], "d", [0x7e], "|r"), "mvi_m": ([0x21], "d", [0x36, None], "|w"), "inr_m": ([0x21], "d", [0x34], "|rw"), "add_m": ([0x21], "d", [0x86], "|r"),
               "ldax": ([0x11], "d", [0x1a], "|r"), "stax": ([0x11], "d", [0x12], "|w"), "nop": ([0], "n", [], "")},
              DA, l16, push=lambda s: ([0xe5, 0xc1], [[("rom", s - 1, "w"), ("rom", s - 2, "w")], [("rom", s - 2, "r"), ("rom", s - 1, "r")]]))
rxk = gen16({"ld_a_m": ([0x3a], "d", [], "r"), "ld_m_a": ([0x32], "d", [], "w"), "ld_hl_m": ([0x2a], "d", [], "rR"), "ld_m_hl": ([0x22], "d", [], "wW"),
             "ld_a_hl": ([0x21], "d", [0x7e], "|r"), "ld_hl_n": ([0x21], "d", [0x36, None], "|w"), "inc_hl": ([0x21], "d", [0x34], "|rw"), "nop": ([0], "n", [], "")},
            DA, l16)
m65 = gen16({"lda": ([0xad], "d", [], "r"), "sta": ([0x8d], "d", [], "w"), "inc": ([0xee], "d", [], "rw"), "ldazp": ([0xa5], "z", [], "r"), "stazp": ([0x85], "z", [], "w"),
             "asl": ([0x0e], "d", [], "rw"), "bit": ([0x2c], "d", [], "r"), "adc": ([0x6d], "d", [], "r"), "inczp": ([0xe6], "z", [], "rw"), "stx": ([0x8e], "d", [], "w"),
             "ldy": ([0xac], "d", [], "r"), "nop": ([0xea], "n", [], "")},
            [0x40, 0x41, 0x7e, 0x2000, 0x2001, 0x20ff, 0x3456], l16, push=lambda s: ([0x48, 0x68], [[("rom", s, "w")], [("rom", s, "r")]]))
m68 = gen16({"lda": ([0xb6], "d", [], "r"), "sta": ([0xb7], "d", [], "w"), "inc": ([0x7c], "d", [], "rw"), "tst": ([0x7d], "d", [], "r"), "ldx": ([0xfe], "d", [], "rR"),
             "stx": ([0xff], "d", [], "wW"), "ldaz": ([0x96], "z", [], "r"), "staz": ([0x97], "z", [], "w"), "addb": ([0xfb], "d", [], "r"), "rol": ([0x79], "d", [], "rw"), "nop": ([1], "n", [], "")},
            DA, w16, push=lambda s: ([0x36, 0x33], [[("rom", s, "w")], [("rom", s, "r")]]))
m09 = gen16({"lda": ([0xb6], "d", [], "r"), "sta": ([0xb7], "d", [], "w"), "inc": ([0x7c], "d", [], "rw"), "tst": ([0x7d], "d", [], "r"), "ldd": ([0xfc], "d", [], "rR"),
             "std": ([0xfd], "d", [], "wW"), "addb": ([0xfb], "d", [], "r"), "ldx": ([0xbe], "d", [], "rR"), "stx": ([0xbf], "d", [], "wW"), "sty": ([0x10, 0xbf], "d", [], "wW"),
             "rol": ([0x79], "d", [], "rw"), "ldx_ix": ([0x8e], "d", [0xa6, 0x84], "|r"), "sta_ix": ([0x8e], "d", [0xa7, 0x84], "|w"), "nop": ([0x12], "n", [], "")},
            DA, w16)
m12 = gen16({"lda": ([0xb6], "d", [], "r"), "sta": ([0x7a], "d", [], "w"), "inc": ([0x72], "d", [], "rw"), "ldd": ([0xfc], "d", [], "rR"), "std": ([0x7c], "d", [], "wW"),
             "addb": ([0xfb], "d", [], "r"), "rol": ([0x75], "d", [], "rw"), "nop": ([0xa7], "n", [], "")}, DA, w16)
m08 = gen16({"lda": ([0xc6], "d", [], "r"), "sta": ([0xc7], "d", [], "w"), "incz": ([0x3c], "z", [], "rw"), "ldaz": ([0xb6], "z", [], "r"), "staz": ([0xb7], "z", [], "w"),
             "tstz": ([0x3d], "z", [], "r"), "add": ([0xcb], "d", [], "r"), "nop": ([0x9d], "n", [], "")}, DA, w16,
            push=lambda s: ([0x87, 0x86], [[("rom", s, "w")], [("rom", s, "r")]]))
st7 = gen16({"lda": ([0xc6], "d", [], "r"), "sta": ([0xc7], "d", [], "w"), "incz": ([0x3c], "z", [], "rw"), "ldaz": ([0xb6], "z", [], "r"), "staz": ([0xb7], "z", [], "w"),
             "tstz": ([0x3d], "z", [], "r"), "add": ([0xcb], "d", [], "r"), "nop": ([0x9d], "n", [], "")}, DA, w16)
stm = gen16({"lda": ([0xc6], "d", [], "r"), "sta": ([0xc7], "d", [], "w"), "inc": ([0x72, 0x5c], "d", [], "rw"), "tnz": ([0x72, 0x5d], "d", [], "r"), "ldw": ([0xce], "d", [], "rR"),
             "stw": ([0xcf], "d", [], "wW"), "movi": ([0x35, None], "d", [], "w"), "bset": ([0x72, 0x10], "d", [], "rw"), "ldaz": ([0xb6], "z", [], "r"), "add": ([0xcb], "d", [], "r"),
             "clr": ([0x72, 0x5f], "d", [], "w"), "nop": ([0x9d], "n", [], "")}, [0x40, 0x41, 0x7e, 0x200, 0x201, 0x4ff, 0x5ff], w16,
            push=lambda s: ([0x88, 0x84], [[("rom", s, "w")], [("rom", s, "r")]]))
_stm = stm


def stm8(t, r, st):
    if t == "movi":
        a = [0x40, 0x200, 0x4ff][r.n(3)]
        return [0x35, r.n(256)] + w16(a), [[("rom", a, "w")]]
    return _stm(t, r, st)


stm8.T = _stm.T


def avr(t, r, st):
    a = [0x60, 0x61, 0x100, 0x200, 0x70][r.n(5)]
    if t == "lds":
        return [0x9100, a], [[("iram", a, "r")]]
    if t == "sts":
        return [0x9300, a], [[("iram", a, "w")]]
    if t == "ldx":
        return [0xe0a0 | (a << 4 & 0xf00) | (a & 15), 0xe0b0 | (a >> 4 & 0xf00) | (a >> 8 & 15), 0x910c], [[], [], [("iram", a, "r")]]
    if t == "stx":
        return [0xe0a0 | (a << 4 & 0xf00) | (a & 15), 0xe0b0 | (a >> 4 & 0xf00) | (a >> 8 & 15), 0x930c], [[], [], [("iram", a, "w")]]
    return [0], [[]]


avr.T = ["lds", "sts", "ldx", "stx", "nop"]
# sim -> (type, templates, origin, command that sets SP or None, its value)
S = {"s51": ("C52", s51, 0, "set mem sfr 0x81 0x50", 0x50), "z80": ("Z80", z80, 0x100, None, 0), "i8085": ("I8085", i8085, 0x100, None, 0), "rxk": ("R2K", rxk, 0x100, None, 0),
     "mos6502": ("6502", m65, 0x400, None, 0), "m6800": ("M6800", m68, 0x400, None, 0), "m6809": ("M6809", m09, 0x400, None, 0), "m68hc11": ("HC11", m68, 0x400, None, 0),
     "m68hc12": ("HC12", m12, 0x400, None, 0), "m68hc08": ("HC08", m08, 0x400, None, 0), "st7": ("st7", st7, 0x400, None, 0), "stm8": ("STM8S", stm8, 0x8000, None, 0),
     "avr": ("AVR", avr, 0x40, None, 0)}
PRO = {"z80": ([0x31, 0, 0xf8], 0xf800, 1), "i8085": ([0x31, 0, 0xf8], 0xf800, 1), "mos6502": ([0xa2, 0xf0, 0x9a], 0x1f0, 2), "m6800": ([0x8e, 0x30, 0], 0x3000, 1),
       "m68hc11": ([0x8e, 0x30, 0], 0x3000, 1), "m68hc08": ([0x45, 0x30, 0x01, 0x94], 0x3000, 2), "stm8": ([0xae, 0x16, 0x80, 0x94], 0x1680, 2), "s51": ([0x75, 0x81, 0x50], 0x50, 1)}


def build(case):
    """-> cells, [per-instruction accesses], number of prologue instructions"""
    sim = case["sim"]
    typ, tmpl, org, _, _ = S[sim]
    pro, sp, npro = PRO.get(sim, ([], 0, 0))
    cells, acc = list(pro), []
    st = {"sp": sp}
    for t, ints in case["ins"]:
        if t == "push" and sim not in PRO:
            continue
        b, a = tmpl(t, R(ints, st), st)
        cells += b
        acc += a
    return cells, acc, npro


class P:
    ID = "C08"
    RULE = ("Two kinds of cases. Exact: a straight-line program of instructions with known memory accesses on one of 13 simulators, random event breakpoints (break/tbreak, r/w, "
            "hit counts, conditions, commands, deletions at stops); a model predicts the instruction after which each run/step stops and all counters. Transparent: any random program "
            "with never-accepted event breakpoints and VCD variables on random cells (peripheral registers included) must behave as without them.")
    QUICK_S = 40
    THOROUGH_S = 600

    def gen(self, rng, tier):
        if rng.random() < 0.35:
            sim = rng.choice(sims.NAMES + ["s51", "stm8", "s51", "stm8"])
            typ = rng.choice(sims.SIMS[sim][0])
            sp = sims.SIMS[sim][5]
            ev = []
            for _ in range(rng.choice([1, 4, 20])):
                s = rng.choice(sp)
                ev.append([s[0], rng.randrange(s[1], s[2] + 1), rng.choice("rrw"), rng.choice(["0", "cnt", "vcd"])])
            return {"kind": "transparent", "sim": sim, "typ": typ, "R": rng.randrange(1, 10 ** 6), "cells": sims.code_image(sim, rng), "n": rng.choice([30, 200, 800]),
                    "ev": ev, "_lists": ["ev", "cells"]}
        if rng.random() < 0.4:
            sim = rng.choice(sims.NAMES + ["s51", "stm8"] * 4)
            ev = []
            sp = sims.SIMS[sim][5]
            for _ in range(rng.choice([1, 2, 3, 8])):
                s = rng.choice(sp)
                base = rng.choice([0, 0, 0, rng.randrange(s[1], s[2] + 1)])
                if sim == "s51":
                    s, base = rng.choice([(["iram"], rng.randrange(0x20, 0x68)), (["sfr"], rng.choice([0x80, 0x90, 0x81, 0xd0, 0xe0, 0x88, 0x8a, 0x8b, 0xa8, 0x99]))])
                if sim == "stm8":
                    base = rng.choice([rng.randrange(0x17e0, 0x1800), base, rng.randrange(0x5200, 0x5400)])
                ev.append([s[0], base, rng.choice("rww")])
            return {"kind": "cuts", "sim": sim, "typ": rng.choice(sims.SIMS[sim][0]), "R": rng.randrange(1, 10 ** 6), "cells": sims.code_image(sim, rng), "n": rng.choice([20, 60, 120]),
                    "cper": rng.choice([1, 7, 1000]), "ev": ev, "_lists": ["ev", "cells"]}
        sim = rng.choice(list(S))
        T = S[sim][1].T
        ins = [[rng.choice(T), [rng.randrange(1 << 20) for _ in range(6)]] for _ in range(rng.choice([3, 10, 30, 60]))]
        ops = []
        for _ in range(rng.choice([3, 8, 20])):
            k = rng.choice(["brk", "brk", "brk", "go", "go", "go", "del", "cmd", "info", "delall"])
            if k == "brk":
                ops.append([k, rng.randrange(1 << 20), rng.choice("rrrw"), rng.choice([1, 1, 1, 2, 3]), rng.choice([None, None, None, "0", "1", "nn"]), rng.random() < 0.25, rng.random() < 0.15])
            elif k == "go":
                ops.append([k, rng.choice([0, 0, 1, 2, 5, 20])])
            elif k == "cmd":
                ops.append([k, rng.randrange(1 << 20), rng.choice(["tok", "tok", "del", "delall"])])
            else:
                ops.append([k, rng.randrange(1 << 20)])
        return {"kind": "exact", "sim": sim, "ins": ins, "ops": ops, "cper": rng.choice([0, 1, 10]), "R": rng.randrange(1, 10 ** 6), "_lists": ["ins", "ops"]}

    def trivial(self, case):
        return False

    def check(self, case, ctx):
        if case["kind"] == "transparent":
            return self.transparent(case, ctx)
        if case["kind"] == "cuts":
            return self.cuts(case, ctx)
        sim = case["sim"]
        typ, _, org, _, _ = S[sim]
        cells, acc, npro = build(case)
        if not acc:
            return
        ctx.mark("exact_" + sim)
        fillop = {"s51": 0, "z80": 0, "i8085": 0, "rxk": 0, "mos6502": 0xea, "m6800": 1, "m6809": 0x12, "m68hc11": 1, "m68hc12": 0xa7, "m68hc08": 0x9d, "st7": 0x9d, "stm8": 0x9d, "avr": 0}[sim]
        cells = cells + [fillop] * 3
        n = len(acc)
        if sim == "avr":
            fi, pre = [], sims.setmem_cmds("avr", cells, org, per=32).split("\n")[:-1]
            ar = []
        else:
            fi, ar, pre = [("p.ihx", sims.ihex(cells, org) if not isinstance(sims.ihex(cells, org), list) else "\n".join(sims.ihex(cells, org)))], ["p.ihx"], []
        ar = ["-R", str(case["R"])] + ar
        nres = 0
        if sim in ("st7", "m68hc08"):  # the first step is the fetch of the reset vector
            pre, nres = pre + ["step 1"], 1
        pre = pre + ["pc 0x%x" % org, "expr cperiod=%d" % case["cper"]] + (["step %d" % npro] if npro else [])
        npro += nres
        obs = ["info registers", "state"] + ["dump /h %s 0x%x 0x%x 16" % (s, a, a) for s, a in sorted({(s, a) for x in acc for s, a, _ in x})]
        obs = [x for x in obs if not x.startswith("dump /h sfr")]
        ref, oref = script.run(ctx, sim, typ, pre + ["step %d" % n] + obs, ar, fi, limit=3000000)
        c0 = script.counters(oref[-len(obs) + 1] or "")
        want = [script.scrub(x) for x in oref[-len(obs):]]
        st = script.stop_of(oref[len(pre)] or "")
        if not st or st[1] != 109 or c0.get("inst") != n + npro:
            raise Viol("template", f"{sim}: the straight program did not execute straight: {st} {c0.get('inst')}")
        allacc = sorted({x for y in acc for x in y})
        if not allacc:
            return
        # model
        cm, exp, bps = list(pre), [], []
        t = tok = nr = 0
        for op in case["ops"]:
            k = op[0]
            if k == "brk":
                near = [x for y in acc[t:t + 12] for x in y]
                s, a, rw = near[op[1] % len(near)] if near and op[1] % 3 else allacc[op[1] % len(allacc)]
                if op[6]:
                    rw = "r" if rw == "w" else "w"
                if op[1] % 11 == 0:
                    a += 2
                if len(bps) == 0:
                    nr = 0
                nr += 1
                v = "n%d" % len(cm)
                cond = op[4]
                if cond == "nn":
                    cm += ["var %s" % v, "expr %s=0" % v]
                cm.append("%s %s %s 0x%x%s%s" % ("tbreak" if op[5] else "break", s, rw, a, " %d" % op[3] if op[3] > 1 or cond else "",
                                                 "" if cond is None else ' if "%s"' % ("(%s=%s+1)%%2==0" % (v, v) if cond == "nn" else cond)))
                bps.append({"nr": nr, "key": (s, a, rw), "hit": op[3], "cnt": op[3], "cond": cond, "n": 0, "temp": op[5], "cmd": None})
            elif k == "del":
                if bps:
                    b = bps.pop(op[1] % len(bps))
                    cm.append("delete %d" % b["nr"])
            elif k == "delall":
                if op[1] % 3 == 0:
                    cm.append("delete")
                    bps = []
            elif k == "cmd":
                if bps:
                    b = bps[op[1] % len(bps)]
                    tok += 1
                    b["cmd"] = [op[2], tok]
                    cm.append('commands %d "expr 5000000+%d%s"' % (b["nr"], tok, {"tok": "", "del": ";delete %d" % b["nr"], "delall": ";delete"}[op[2]]))
            elif k == "info":
                cm.append("info breakpoints")
                exp.append((len(cm) - 1, "info", [(b["nr"], b["temp"], b["hit"], b["cnt"], b["key"][1], "read" if b["key"][2] == "r" else "write") for b in bps]))
            else:
                K = op[1] or 0
                if t >= n:
                    continue
                K2 = K if K and t + K <= n else n - t
                s0, toks, why = t, [], None
                while why is None:
                    evs = []
                    for x in acc[t]:
                        for b in bps:
                            if b["key"] == x:
                                b["cnt"] -= 1
                                if b["cnt"] <= 0:
                                    b["cnt"] = b["hit"]
                                    ok = b["cond"] in (None, "1")
                                    if b["cond"] == "nn":
                                        b["n"] += 1
                                        ok = b["n"] % 2 == 0
                                    if ok:
                                        evs.append(b)
                    t += 1
                    if evs:
                        why = "event"
                        for b in evs:
                            if b not in bps:
                                continue
                            if b["temp"]:
                                bps.remove(b)
                            elif b["cmd"]:
                                toks.append(b["cmd"][1])
                                if b["cmd"][0] == "del":
                                    bps.remove(b)
                                elif b["cmd"][0] == "delall":
                                    bps = []
                    elif t - s0 >= K2:
                        why = "step"
                cm += ["step %d" % K2, "state"]
                exp.append((len(cm) - 2, "stop", (t, why, toks)))
                ctx.mark("ev_" + why)
        cm.append("info breakpoints")
        exp.append((len(cm) - 1, "info", [(b["nr"], b["temp"], b["hit"], b["cnt"], b["key"][1], "read" if b["key"][2] == "r" else "write") for b in bps]))
        cm.append("delete")
        if t < n:
            cm.append("step %d" % (n - t))
        r, o = script.run(ctx, sim, typ, cm + obs, ar, fi, limit=6000000, must_end=False)
        crashcheck(r)
        for i, what, v in exp:
            g = o[i]
            if g is None:
                raise Viol("script", f"{sim}: no answer to {cm[i]!r}")
            if what == "info":
                got = []
                for line in g.split("\n"):
                    q = re.match(r"\0*(\d+)\s+event\s+(keep|del)\s+(\d+)\s+(-?\d+)\s+0x([0-9a-f]+) (\w+)", line)
                    if q:
                        got.append((int(q[1]), q[2] == "del", int(q[3]), int(q[4]), int(q[5], 16), q[6]))
                if got != v:
                    raise Viol("info", f"{sim}: event breakpoints (nr, temporary, hit, count left, address, kind) are {got}, expected {v}")
            else:
                t, why, toks = v
                st = script.stop_of(g)
                c = script.counters(o[i + 1] or "")
                if not st or c.get("inst") != npro + t:
                    raise Viol("stop", f"{sim}: {cm[i]!r} stopped after {c.get('inst', 0) - npro} instructions ({st}), expected {t} by {why}; accesses of the last: {acc[t - 1]}")
                if (st[1] != 109) != (why == "event"):
                    raise Viol("reason", f"{sim}: {cm[i]!r} stopped with reason {st[1]}, expected {why}")
                if c.get("pc") != st[0]:
                    raise Viol("pc", f"{sim}: the stop was reported at {st[0]:#x}, the machine is at {c.get('pc'):#x}")
                tk = [int(x) - 5000000 for x in re.findall(r"^50\d{5}$", g, re.M)]
                if sorted(tk) != sorted(toks):
                    raise Viol("commands", f"{sim}: {cm[i]!r}: breakpoint commands run {tk}, expected {toks}")
        got = [script.scrub(x) for x in o[len(cm):]]
        for cmd, a, b in zip(obs, want, got):
            if a != b:
                raise Viol("changed", f"{sim}: the program's result depends on event breakpoints: {cmd}: " + c02.first_diff(a or "", b or ""))

    def transparent(self, case, ctx):
        sim, typ = case["sim"], case["typ"]
        if not case["cells"]:
            return
        fi, ar, pre = sims.place(sim, case["cells"], True)
        ar = ["-R", str(case["R"])] + ar
        n = case["n"]
        ob = c02.obs(sim)
        ob = [x for x in ob if "vcd" not in x]
        r, o = script.run(ctx, sim, typ, pre + ["step %d" % n] + ob, ar, fi)
        st = script.stop_of(o[len(pre)] or "")
        want = [c02.scrub(x) for x in o[len(pre) + 1:]]
        cnt = script.counters(want[1] or "")
        if not st or "inst" not in cnt:
            return
        ctx.mark("transparent_" + sim)
        ctx.ticks += cnt.get("total", 0)
        cm = list(pre)
        vcd = False
        for i, (s, a, rw, how) in enumerate(case["ev"]):
            if how == "vcd":
                cm.append("set hardware vcd[0] add %s[0x%x]" % (s, a))
                vcd = True
            elif how == "0":
                cm.append('break %s %s 0x%x 1 if "0"' % (s, rw, a))
            else:
                cm.append("break %s %s 0x%x 90000" % (s, rw, a))
        if vcd:
            cm += ['set hardware vcd[0] output "x.vcd"', "set hardware vcd[0] start"]
        r, o = script.run(ctx, sim, typ, cm + ["step %d" % n, "delete"] + ob, ar, fi)
        got = [c02.scrub(x) for x in o[len(cm) + 2:]]
        for cmd, a, b in zip(ob, want, got):
            if a != b:
                raise Viol("observer:" + " ".join(cmd.split()[:2]), f"{sim} {typ}: observed cells {case['ev']}: `{cmd}` differs from the unobserved run\n" + c02.first_diff(a or "", b or ""))

    def cuts(self, case, ctx):
        """the same stops whether the program is stepped one by one, or run"""
        sim, typ, n = case["sim"], case["typ"], case["n"]
        if not case["cells"]:
            return
        fi, ar, pre = sims.place(sim, case["cells"], True)
        ar = ["-R", str(case["R"])] + ar
        pre = pre + ["expr cperiod=%d" % case["cper"]] + ["break %s %s 0x%x" % (e[0], e[2], e[1]) for e in case["ev"]]
        r, o = script.run(ctx, sim, typ, pre + ["step 1", "state"] * n, ar, fi, limit=3000000)
        o = o[len(pre):]
        want, last = [], None
        for i in range(n):
            st, c = script.stop_of(o[2 * i] or ""), script.counters(o[2 * i + 1] or "")
            if not st or "inst" not in c:
                return
            if st[0] != c.get("pc"):
                raise Viol("pc", f"{sim} {typ}: the stop of step {i} was reported at {st[0]:#x}, the machine is at {c.get('pc'):#x}")
            last = c["inst"]
            if "Event break" in (o[2 * i] or ""):
                ctx.mark("cuts_event")
            if st[1] != 109:
                want.append((st[1], st[0], c["inst"], c.get("total")))
                if st[1] == 101 or len(want) > 25:
                    break
        if not want:
            return
        ctx.mark("cuts_" + sim)
        k = last - 0
        r, o = script.run(ctx, sim, typ, pre + ["step 100000", "state"] * len(want), ar, fi, limit=6000000)
        o = o[len(pre):]
        got = []
        for i in range(len(want)):
            st, c = script.stop_of(o[2 * i] or ""), script.counters(o[2 * i + 1] or "")
            got.append((st and st[1], st and st[0], c.get("inst"), c.get("total")))
        for i, (a, b) in enumerate(zip(want, got)):
            if a != b:
                raise Viol("cuts", f"{sim} {typ}: with events {case['ev']}, stop {i} (reason, PC, instructions, clocks) is {b} when running, {a} when stepping")


PROP = P()
