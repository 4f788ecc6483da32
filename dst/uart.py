"""Guest programs that drive the UART of every simulator that has one: receive into memory, transmit a table."""
from . import sims


class Asm:
    """flat byte/cell list with relative-branch and absolute fixups"""

    def __init__(self, base):
        self.base, self.c, self.lab, self.fix = base, [], {}, []

    def e(self, *b):
        self.c += b
        return self

    def l(self, n):
        self.lab[n] = self.base + len(self.c)
        return self

    def rel(self, op, n):
        self.c += op if isinstance(op, (list, tuple)) else [op]
        self.fix.append((len(self.c), n, "r"))
        self.c.append(0)
        return self

    def cell(self, n, f=lambda a: a):
        self.fix.append((len(self.c), n, f))
        self.c.append(0)
        return self

    def done(self):
        for i, n, k in self.fix:
            if k == "r":
                d = self.lab[n] - (self.base + i + 1)
                assert -128 <= d <= 127
                self.c[i] = d & 255
            else:
                self.c[i] = k(self.lab[n])
        return self.c


# sim -> [(type, uart id)]
UARTS = {"s51": [("C52", 0)], "stm8": [("STM8S", 1), ("STM8S", 3), ("S105", 2)], "m6800": [("M6800", 0), ("M6800", 1)],
         "m6809": [("M6809", 0), ("M6809", 1)], "m68hc11": [("HC11", 0), ("HC11", 1)], "m68hc12": [("HC12", 0)], "p1516": [("P1516", 0)],
         "z80": [("Z80", 0)], "oisc": [("MISC16", 0)]}
BUF = {"s51": ("xram", 0x1000), "stm8": ("rom", 0x100), "p1516": ("rom", 0x2000), "oisc": ("rom", 0x2000)}
ORG = {"s51": 0, "stm8": 0x8000, "p1516": 0x100, "oisc": 0x300}
STM8BASE = {1: 0x5230, 2: 0x5240, 3: 0x5240}
ACIA = {0: 0xd000, 1: 0xd010}


def buf(sim):
    return BUF.get(sim, ("rom", 0x2000))


def prog(sim, uid, mode, sent=0, table=(), baud=0, slow=0, isr=False):
    """mode rx: store every received byte from buf() on until `sent`, pass `done` and go on;
       mode echo: send back every received byte, pass `done` when `sent` was sent back and go on;
       mode tx: send table, wait until the last one left, then sit at `done`.  -> dict(cells, org, labels, cmds, hw)"""
    org = ORG.get(sim, 0x400)
    a = Asm(org)
    B = buf(sim)[1]
    T = 0x3000 if sim not in ("s51", "stm8") else (0x4000 if sim == "s51" else 0x9000)
    cmds = []
    hw = "uart[%d]" % uid
    if sim == "s51":
        isr = isr and mode == "rx"
        if isr:
            a.e(0x80, 0x30 - 2).e(*[0] * (0x23 - 2))
            a.l("isr").e(0x30, 0x98, 0xfd, 0xc2, 0x98)
            for _ in range(slow % 3):
                a.e(0)
            a.e(0x02, 0, 0x80).e(*[0] * (0x30 - (0x23 + 5 + slow % 3 + 3)))
        m, smod, t2 = baud & 3, baud >> 2 & 1, baud >> 3 & 1
        scon = [0x50, 0x90, 0xd0, 0x50][m]
        a.e(0x75, 0x98, scon | (0 if mode == "rx" else 0), 0x75, 0x87, 0x80 if smod else 0, 0x75, 0x89, 0x20, 0x75, 0x8d, 0xff if baud & 16 else 0xfd, 0x75, 0x8b, 0xff)
        a.e(0x75, 0x81, 0x40)
        if t2:
            a.e(0x75, 0xca, 0xf8, 0x75, 0xcb, 0xff, 0x75, 0xcc, 0xf8, 0x75, 0xcd, 0xff, 0x75, 0xc8, 0x34)
        a.e(0xd2, 0x8e)
        if mode == "rx":
            a.e(0x90, B >> 8, B & 255)
            if isr:
                a.e(0x75, 0xa8, 0x90).l("idle").e(0x08).e(0xa4).rel(0x80, "idle")
                a.e(*[0] * (0x80 - (org + len(a.c))))
                a.e(0xc0, 0xe0, 0xe5, 0x99, 0xf0, 0xa3, 0xb4, sent, 2).rel(0x80, "done").l("ret").e(0xd0, 0xe0, 0x32)
                a.l("done").rel(0x80, "ret")
            else:
                a.l("l").e(0x30, 0x98, 0xfd, 0xc2, 0x98, 0xe5, 0x99, 0xf0, 0xa3)
                if slow:
                    a.e(0x7f, slow, 0xdf, 0xfe)
                a.rel([0xb4, sent], "l").l("done").rel(0x80, "l")
        elif mode == "echo":
            a.e(0xd2, 0x99).l("l").e(0x30, 0x98, 0xfd, 0xc2, 0x98, 0xaa, 0x99)
            if slow:
                a.e(0x7f, slow, 0xdf, 0xfe)
            a.e(0x30, 0x99, 0xfd, 0xc2, 0x99, 0x8a, 0x99).rel([0xba, sent], "l").e(0x30, 0x99, 0xfd).l("done").rel(0x80, "l")
        else:
            a.e(0x90, T >> 8, T & 255, 0x7e, len(table) >> 8, 0x7f, len(table) & 255)
            # r6:r7 count
            a.l("l").e(0xef, 0x4e).rel(0x60, "done").e(0xe4, 0x93, 0xa3, 0xf5, 0x99, 0x30, 0x99, 0xfd, 0xc2, 0x99)
            a.e(0x1f, 0xbf, 0xff, 1, 0x1e)
            if slow:
                a.e(0x7d, slow, 0xdd, 0xfe)
            a.rel(0x80, "l").l("done").rel(0x80, "done")
    elif sim == "stm8":
        R = STM8BASE[uid]
        w = lambda ad, v: a.e(0x35, v, ad >> 8, ad & 255)
        w(0x50c7, 0xff), w(0x50ca, 0xff)
        b = [16, 2, 100, 1, 0x1234 & 0x1ff][baud % 5]
        w(R + 3, (b >> 8 & 0xf0) | (b & 0xf)), w(R + 2, b >> 4 & 255), w(R + 5, 0x0c)
        if mode == "rx":
            a.e(0xae, B >> 8, B & 255)
            a.l("l").e(0xc6, R >> 8, R & 255, 0xa5, 0x20).rel(0x27, "l").e(0xc6, R + 1 >> 8, R + 1 & 255, 0xf7, 0x5c)
            if slow:
                a.e(0x90, 0xae, 0, slow).l("s").e(0x90, 0x5a).rel(0x26, "s")
            a.e(0xa1, sent).rel(0x26, "l").l("done").rel(0x20, "l")
        elif mode == "echo":
            a.l("l").e(0xc6, R >> 8, R & 255, 0xa5, 0x20).rel(0x27, "l").e(0xc6, R + 1 >> 8, R + 1 & 255, 0x97)
            a.l("t").e(0xc6, R >> 8, R & 255, 0xa5, 0x80).rel(0x27, "t").e(0x9f, 0xc7, R + 1 >> 8, R + 1 & 255)
            if slow:
                a.e(0x90, 0xae, 0, slow).l("s").e(0x90, 0x5a).rel(0x26, "s")
            a.e(0xa1, sent).rel(0x26, "l").l("tc").e(0xc6, R >> 8, R & 255, 0xa5, 0x40).rel(0x27, "tc").l("done").rel(0x20, "l")
        else:
            a.e(0xae, T >> 8, T & 255)
            a.l("l").e(0xa3, T + len(table) >> 8, T + len(table) & 255).rel(0x27, "tc")
            a.l("t").e(0xc6, R >> 8, R & 255, 0xa5, 0x80).rel(0x27, "t").e(0xf6, 0xc7, R + 1 >> 8, R + 1 & 255, 0x5c)
            if slow:
                a.e(0x90, 0xae, 0, slow).l("s").e(0x90, 0x5a).rel(0x26, "s")
            a.rel(0x20, "l").l("tc").e(0xc6, R >> 8, R & 255, 0xa5, 0x40).rel(0x27, "tc").l("done").rel(0x20, "done")
    elif sim in ("m6800", "m6809", "m68hc11", "m68hc12"):
        R = ACIA[uid]
        cmds.append("set hardware uart[%d] 0x%x" % (uid, R))
        H, L = R >> 8, R & 255
        hc12, m9 = sim == "m68hc12", sim == "m6809"
        st = 0x7a if hc12 else 0xb7
        a.e(0x86, 0x03, st, H, L, 0x86, [0x15, 0x16, 0x14, 0x09, 0x0d][baud % 5], st, H, L)
        ldx = 0x8e if m9 else 0xce
        stax = {"m6809": [0xa7, 0x80], "m68hc12": [0x6a, 0, 8]}.get(sim, [0xa7, 0, 8])
        ldax = {"m6809": [0xa6, 0x80], "m68hc12": [0xa6, 0, 8]}.get(sim, [0xa6, 0, 8])

        def delay():
            if slow:
                a.e(0xc6, slow).l("s").e(0x53 if hc12 else 0x5a).rel(0x26, "s")
        if mode == "rx":
            a.e(ldx, B >> 8, B & 255)
            a.l("l").e(0xb6, H, L, 0x44).rel(0x24, "l").e(0xb6, H, L + 1, *stax)
            delay()
            a.e(0x81, sent).rel(0x26, "l").l("done").rel(0x20, "l")
        elif mode == "echo":
            a.l("l").e(0xb6, H, L, 0x44).rel(0x24, "l").e(0xf6, H, L + 1)
            a.l("t").e(0xb6, H, L, 0x44, 0x44).rel(0x24, "t").e(0x7b if hc12 else 0xf7, H, L + 1)
            if slow:
                a.e(0x86, slow).l("s").e(0x43 if hc12 else 0x4a).rel(0x26, "s")
            a.e(0xc1, sent).rel(0x26, "l").l("done").rel(0x20, "l")
        else:
            a.e(ldx, T >> 8, T & 255)
            a.l("l").e(*({"m6809": [0x8c], "m68hc12": [0x8e]}.get(sim, [0x8c]))).e(T + len(table) >> 8, T + len(table) & 255).rel(0x27, "done")
            a.l("t").e(0xb6, H, L, 0x44, 0x44).rel(0x24, "t").e(*ldax).e(st, H, L + 1)
            delay()
            a.rel(0x20, "l").l("done").rel(0x20, "done")
    elif sim == "z80":
        R = 0xc000
        cmds.append("set hardware pc16550[0] rom 0x%x" % R)
        hw = "pc16550[0]"
        if mode == "rx":
            a.e(0x21, B & 255, B >> 8)
            a.l("l").e(0x3a, R + 5 & 255, R + 5 >> 8, 0x0f).rel(0x30, "l").e(0x3a, R & 255, R >> 8, 0x77, 0x23)
            if slow:
                a.e(0x06, slow).l("s").rel(0x10, "s")
            a.e(0xfe, sent).rel(0x20, "l").l("done").rel(0x18, "l")
        elif mode == "echo":
            a.l("l").e(0x3a, R + 5 & 255, R + 5 >> 8, 0x0f).rel(0x30, "l").e(0x3a, R & 255, R >> 8, 0x5f)
            a.l("t").e(0x3a, R + 5 & 255, R + 5 >> 8, 0xe6, 0x20).rel(0x28, "t").e(0x7b, 0x32, R & 255, R >> 8)
            if slow:
                a.e(0x06, slow).l("s").rel(0x10, "s")
            a.e(0xfe, sent).rel(0x20, "l").l("tc").e(0x3a, R + 5 & 255, R + 5 >> 8, 0xe6, 0x40).rel(0x28, "tc").l("done").rel(0x18, "l")
        else:
            a.e(0x21, T & 255, T >> 8, 1, len(table) & 255, len(table) >> 8)
            a.l("l").e(0x78, 0xb1).rel(0x28, "tc")
            a.l("t").e(0x3a, R + 5 & 255, R + 5 >> 8, 0xe6, 0x20).rel(0x28, "t").e(0x7e, 0x32, R & 255, R >> 8, 0x23, 0x0b)
            if slow:
                a.e(0x16, slow).l("s").e(0x15).rel(0x20, "s")
            a.rel(0x18, "l").l("tc").e(0x3a, R + 5 & 255, R + 5 >> 8, 0xe6, 0x40).rel(0x28, "tc").l("done").rel(0x18, "done")
    elif sim == "p1516":
        R = 0xff40
        ldi = lambda d, v: a.e(0x04000000 | d << 20 | v)
        ld = lambda d, s: a.e(0x01000000 | d << 20 | s << 16)
        sto = lambda s, d: a.e(0x02000000 | s << 20 | d << 16)
        alu = lambda op, d, s, b=0: a.e(0x07000000 | d << 20 | s << 16 | b << 12 | op << 7)
        jmp = lambda n, c=0: a.cell(n, lambda x: c << 28 | 0x04f00000 | x)
        ldi(3, R + 4), ldi(5, [16, 60, 217, 7][baud % 4]), sto(5, 3), ldi(3, R + 1), ldi(5, 3), sto(5, 3)
        ldi(1, R), ldi(6, 1)
        if mode == "rx":
            ldi(3, R + 2), ldi(2, B), ldi(7, sent)
            a.l("l")
            ld(4, 3), alu(6, 4, 4, 6), jmp("l", 0xb), ld(4, 1), sto(4, 2), alu(4, 2, 2)
            if slow:
                ldi(8, slow), a.l("s"), alu(5, 8, 8), jmp("s", 0x9)
            alu(15, 4, 4, 7), jmp("l", 0x9), a.l("done"), jmp("l")
        elif mode == "echo":
            ldi(3, R + 2), ldi(2, R + 3), ldi(7, sent)
            a.l("l")
            ld(4, 3), alu(6, 4, 4, 6), jmp("l", 0xb), ld(4, 1)
            a.l("t"), ld(9, 2), alu(6, 9, 9, 6), jmp("t", 0xb), sto(4, 1)
            if slow:
                ldi(8, slow), a.l("s"), alu(5, 8, 8), jmp("s", 0x9)
            alu(15, 4, 4, 7), jmp("l", 0x9), a.l("done"), jmp("l")
        else:
            ldi(3, R + 3), ldi(2, T), ldi(7, T + len(table))
            a.l("l")
            alu(15, 2, 2, 7), jmp("done", 0xb), a.l("t"), ld(4, 3), alu(6, 4, 4, 6), jmp("t", 0xb), ld(4, 2), sto(4, 1), alu(4, 2, 2)
            if slow:
                ldi(8, slow), a.l("s"), alu(5, 8, 8), jmp("s", 0x9)
            jmp("l"), a.l("done"), jmp("done")
    else:       # oisc MISC16: mov src,dst pairs
        mv = lambda s, d: [a.e(x) if isinstance(x, int) else a.cell(x) for x in (s, d)]
        if mode == "rx":
            mv("kbaud", 0xfffb)
            a.l("l"), mv(0xffff, 8), mv("kgot", 2), mv("kl", 0)
            a.l("got"), mv(0xfffe, 8), mv(8, "last")
            a.e(8), a.l("ptr"), a.e(B)
            mv("ptr", 8), mv("k1", 11), mv(8, "ptr")
            mv("last", 8), mv("ksent", 12), mv("kdone", 2), mv("kl", 0)
            a.l("done"), mv("kl", 0)
        elif mode == "echo":
            mv("kbaud", 0xfffb)
            a.l("l"), mv(0xffff, 8), mv("kgot", 2), mv("kl", 0)
            a.l("got"), mv(0xfffe, "last")
            a.l("t"), mv(0xfffd, 8), mv("kgot2", 2), mv("kt", 0)
            a.l("got2"), mv("last", 0xfffc)
            mv("last", 8), mv("ksent", 12), mv("kdone", 2), mv("kl", 0)
            a.l("done"), mv("kl", 0)
        else:
            mv("kbaud", 0xfffb)
            a.l("l"), mv("ptr", 8), mv("kend", 12), mv("kdone", 2)
            a.l("t"), mv(0xfffd, 8), mv("kgot", 2), mv("kt", 0)
            a.l("got"), a.l("ptr"), a.e(T), a.e(0xfffc)
            mv("ptr", 8), mv("k1", 11), mv(8, "ptr"), mv("kl", 0)
            a.l("done"), mv("kdone", 0)
        for n, v in (("k1", 1), ("kbaud", [64, 100, 217, 40][baud % 4]), ("ksent", sent), ("kend", T + len(table))):
            a.l(n).e(v)
        for n, t in (("kgot", "got"), ("kl", "l"), ("kdone", "done"), ("kt", "t"), ("kgot2", "got2")):
            a.l(n)
            a.cell(t) if t in a.lab else a.e(0)
        a.l("last").e(0)
    cells = a.done()
    return {"cells": cells, "org": org, "lab": a.lab, "cmds": cmds, "hw": hw, "table": T}


def load(sim, p, table=()):
    """-> files, args, commands"""
    cb = sims.SIMS[sim][4]
    pc = ["pc 0x%x" % p["org"]]
    sp = sims.SIMS[sim][1]
    if cb == 1:
        h = sims.ihex(p["cells"], p["org"]).decode().replace(":00000001FF\n", "")
        if table:
            h += sims.ihex(list(table), p["table"]).decode().replace(":00000001FF\n", "")
        return [("p.ihx", (h + ":00000001FF\n").encode())], ["p.ihx"], p["cmds"] + pc
    c = sims.setmem_cmds(sim, p["cells"], p["org"], per=24).split("\n")[:-1]
    if table:
        c += sims.setmem_cmds(sim, list(table), p["table"], per=48).split("\n")[:-1]
    return [], [], c + p["cmds"] + pc
