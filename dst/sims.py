"""What the workload generators need to know about every simulator: how code gets in, where it may live, what to observe."""
import json, os, random

_D = os.path.dirname(os.path.abspath(__file__))

# name: (types, code space, code base, code size in cells, bytes/cell, [observed spaces (name, lo, hi, bytes/cell)])
SIMS = {
    "s51": (["51", "C52", "C51R", "89C51R", "517", "521", "DS320", "DS390", "88X", "F380", "251"], "rom", 0, 0x10000, 1,
            [("iram", 0, 0x7f, 1), ("sfr", 0x80, 0xff, 1), ("xram", 0, 0xff, 1)]),
    "stm8": (["STM8S", "S105", "S003", "STM8L", "AF52"], "rom", 0x8000, 0x4000, 1,
             [("rom", 0, 0x17ff, 1), ("rom", 0x5000, 0x57ff, 1), ("rom", 0x4000, 0x40ff, 1)]),
    "st7": (["st7"], "rom", 0, 0x10000, 1, [("rom", 0, 0xffff, 1)]),
    "z80": (["Z80", "Z180", "GB80", "EZ80", "Z80N", "R800"], "rom", 0, 0x10000, 1,
            [("rom", 0, 0xffff, 1), ("outputs", 0, 0xff, 1)]),
    "i8085": (["I8085", "I8080"], "rom", 0, 0x10000, 1, [("rom", 0, 0xffff, 1)]),
    "i8048": (["I8048", "I8039", "I8050", "I8021", "I8022", "I8041A"], "rom", 0, 0x1000, 1, [("iram", 0, 0x3f, 1), ("xram", 0, 0xff, 1),
                                                              ("ports", 0, 7, 1)]),
    "m6800": (["M6800", "M6801"], "rom", 0, 0x10000, 1, [("rom", 0, 0xffff, 1)]),
    "m6809": (["M6809"], "rom", 0, 0x10000, 1, [("rom", 0, 0xffff, 1)]),
    "m68hc08": (["HC08", "HCS08"], "rom", 0, 0x10000, 1, [("rom", 0, 0xffff, 1)]),
    "m68hc11": (["HC11"], "rom", 0, 0x10000, 1, [("rom", 0, 0xffff, 1)]),
    "m68hc12": (["HC12"], "rom", 0, 0x10000, 1, [("rom", 0, 0xffff, 1)]),
    "mos6502": (["65C02S", "6502", "65C02", "6510", "HUC6280"], "rom", 0, 0x10000, 1, [("rom", 0, 0xffff, 1)]),
    "f8": (["F8"], "rom", 0x4000, 0xc000, 1, [("rom", 0, 0x3fff, 1)]),
    "rxk": (["R2K", "R3K", "R3KA", "R4K", "R6K"], "rom", 0, 0x10000, 1, [("rom", 0, 0xffff, 1), ("ioi", 0, 0xff, 1)]),
    "tlcs": (["TLCS90"], "nas", 0, 0x10000, 1, [("nas", 0, 0xffff, 1)]),
    "avr": (["AVR"], "rom", 0, 0x10000, 2, [("iram", 0, 0x7f, 1)]),
    "pdk": (["PDK14", "PDK13", "PDK15", "PFS154"], "rom", 0, 0x800, 2, [("ram", 0, 0x7f, 1), ("regs8", 0, 0x3f, 1)]),
    "pblaze": (["KCPSM3", "KCPSM6"], "rom", 0, 0x400, 3, [("iram", 0, 0x3f, 1), ("sfr", 0, 0x21, 1), ("stack", 0, 0x1e, 2)]),
    "p1516": (["P1516", "P2223"], "rom", 0, 0x10000, 4, [("regs", 0, 15, 4), ("rom", 0xff00, 0xffff, 4)]),
    "oisc": (["EM", "OISC", "MISC16"], "rom", 0, 0x10000, 2, [("rom", 0, 0xfff, 2)]),
}
NAMES = list(SIMS)
_pool = None


def pool(sim):
    """Sampled instructions of the sim: list of cell lists (opcode and operands as the tree decoded them when sampled)."""
    global _pool
    if _pool is None:
        with open(os.path.join(_D, "pool.json")) as f:
            _pool = json.load(f)
    return _pool[sim]


def code_image(sim, rng, typ=None, ncells=None, few=False):
    """A list of cells (a pattern to be placed at the code base)."""
    d = SIMS[sim]
    n = ncells or rng.choice([24, 64, 160, 400, 900])
    n = min(n, d[3])
    p = pool(sim)
    sub = rng.sample(p, min(len(p), rng.choice([6, 20, 60, len(p)])))
    if few:
        sub = rng.sample(p, min(len(p), rng.choice([1, 2, 3])))
    if sim in ("s51", "stm8") and rng.random() < 0.55:
        sub = sub + [[0x32] if sim == "s51" else [0x80]] * max(1, len(sub) // rng.choice([3, 8, 20]))
        out = irq_preamble(sim, rng)
    else:
        out = []
    mask = (1 << (8 * d[4])) - 1
    if sim == "pblaze":
        mask = 0x3ffff
    mut = rng.choice([0.0, 0.3, 0.7])
    while len(out) < n:
        ins = list(rng.choice(sub))
        if d[4] == 1 and len(ins) > 1 and rng.random() < mut:
            k = rng.randrange(1, len(ins))
            ins[k] = rng.choice([rng.randrange(256), 0, 1, 0xff, 0x7f, 0x80, rng.randrange(0x20)])
        out += ins
    return [x & mask for x in out[:n]]


S51_SFR = [(0x88, (0x10, 0x40, 0x50, 0x55)), (0x89, (0x22, 0x21, 0x20, 0x03, 0x11, 0x00)), (0x8a, ()), (0x8b, (0xfe, 0xff)), (0x8c, (0xff, 0xfe, 0xf0)), (0x8d, (0xff, 0xfe, 0xfd)), (0x98, (0x50, 0x40, 0xd0, 0x90, 0x10, 0x52)), (0x99, ()),
           (0xa8, (0x80, 0xff, 0x90, 0x82, 0x8a)), (0xb8, ()), (0xc8, (4, 0x34, 0x14, 0x24, 6)), (0xca, (0xff, 0xf0)), (0xcb, (0xff,)), (0xcc, (0xff, 0xf0)), (0xcd, (0xff,)), (0x80, ()), (0x90, ()), (0xa0, ()), (0xb0, ()),
           (0x87, (0x80, 0x80, 0, 0x01)), (0xd8, (0x40, 0x40, 0x5f)), (0xd9, (0, 1, 2, 4, 0x41, 0x83)), (0xda, (0x42, 0x49, 0x4d, 0x31, 0x21)), (0xdb, (0x49, 0x31)), (0xde, (0x4d, 0x48)), (0xe9, ()), (0xf9, ()), (0xea, ()), (0xfa, ()),
           (0xee, ()), (0xfe, ()), (0xa6, (0x1e, 0xe1)), (0xa6, (0x1e,)), (0x8e, ()), (0xc9, (0, 1, 2)), (0x81, (0x20, 0x60))]
STM8_REG = [(0x50c0, 0x50cf), (0x5200, 0x520b), (0x5230, 0x523b), (0x5230, 0x523b), (0x5240, 0x524b), (0x5250, 0x5270), (0x5250, 0x5270), (0x5300, 0x5320), (0x5300, 0x5320), (0x5320, 0x5334), (0x5340, 0x534f), (0x5340, 0x534f), (0x7f70, 0x7f77), (0x505a, 0x5064), (0x5000, 0x502f)]


def periph_soup(sim, rng):
    """A program of stores to peripheral registers, bit operations and waits."""
    o = []
    n = rng.choice([60, 200, 500])
    b = lambda: rng.choice([0, 1, 0xff, 0x80, rng.randrange(256), rng.randrange(256)])
    if sim == "s51":
        sub = rng.sample(S51_SFR, rng.choice([4, 8, 14, len(S51_SFR)]))
        if rng.random() < .5:
            # a few peripherals in earnest
            grp = rng.sample([[0x98, 0x99, 0x89, 0x8d, 0x8b, 0x88], [0x98, 0x99, 0xc8, 0xca, 0xcb, 0xcc, 0xcd], [0x98, 0x99], [0xd8, 0xd9, 0xda, 0xdb, 0xe9, 0xf9, 0xea, 0xfa], [0xa6, 0xa6, 0xa8], [0xa8, 0xb8, 0x88, 0x89, 0x8c, 0x8a]], rng.choice([1, 2]))
            sub = [x for x in S51_SFR for g in grp if x[0] in g]
        while len(o) < n:
            k = rng.random()
            if k < .5:
                a, vs = rng.choice(sub)
                o += [0x75, a, rng.choice(vs) if vs and rng.random() < .7 else b()]
                if a == 0xa6 and rng.random() < .5:
                    o += [0x75, 0xa6, 0x1e, 0x75, 0xa6, 0xe1]      # the way to start the watchdog
            elif k < .6:
                o += [rng.choice([0xd2, 0xc2, 0xb2]), rng.choice([0x8c, 0x8e, 0x88, 0x8a, 0x98, 0x99, 0x9c, 0xaf, 0xa9, 0xac, 0xca, 0xcf, 0xde, 0xdf] + [0x80 + rng.randrange(128)])]
            elif k < .65:
                o += [0x32]
            elif k < .75:
                o += [0x7f, rng.choice([2, 5, 20, 90]), 0xdf, 0xfe]
            elif k < .8:
                o += [rng.choice([0xe5, 0x05, 0x15]), rng.choice(sub)[0]]
            else:
                o += [rng.choice([0x00, 0x04, 0xa4])] * rng.randrange(1, 6)
    elif sim == "stm8":
        sub = rng.sample(STM8_REG, rng.choice([2, 4, 7]))
        o += [0x35, 0xff, 0x50, 0xc7, 0x35, 0xff, 0x50, 0xca] if rng.random() < .7 else []
        # timers in earnest: (base, offsets of IER, EGR, PSCR low, ARR high, ARR low)
        tims = [(0x5250, 4, 7, 0x11, 0x12, 0x13), (0x5300, 1, 4, 0xc, 0xd, 0xe), (0x5300, 3, 6, 0xe, 0xf, 0x10), (0x5340, 1, 3, 5, 6, 6), (0x5340, 3, 5, 7, 8, 8), (0x5320, 1, 4, 0xa, 0xb, 0xc), (0x5320, 3, 6, 0xe, 0xf, 0x10), (0x5250, 5, 8, 0x13, 0x14, 0x15)]
        tims = rng.sample(tims, rng.choice([0, 1, 2, 3]))
        while len(o) < n:
            k = rng.random()
            if tims and rng.random() < .4:
                b0, ier, egr, psc, arh, arl = rng.choice(tims)
                w = rng.choice([(0, [1, 1, 1, 0, 0x81, 0x85, 0x11, 9]), (ier, [1, 1, 0]), (egr, [1]), (psc, [0, 1, 2, 3, 5]), (arh, [0]), (arl, [1, 3, 9, 40])])
                o += [0x35, rng.choice(w[1]), b0 >> 8, (b0 + w[0]) & 255]
            elif k < .55:
                lo, hi = rng.choice(sub)
                a = rng.choice([rng.randrange(lo, hi + 1), lo, lo + rng.randrange(6)])
                v = rng.choice([0, 1, 1, 2, 5, 0x0c, 0x2c, 0x81, b()])
                o += [0x35, v, a >> 8, a & 255]
            elif k < .65:
                lo, hi = rng.choice(sub)
                a = rng.choice([rng.randrange(lo, hi + 1), lo])
                o += [0x72, 0x10 + rng.randrange(16), a >> 8, a & 255]
            elif k < .7:
                o += [rng.choice([0x80, 0x9a, 0x9b])]
            elif k < .8:
                o += [0xae, 0, rng.choice([3, 10, 60]), 0x5a, 0x26, 0xfd]
            elif k < .85:
                lo, hi = rng.choice(sub)
                a = rng.randrange(lo, hi + 1)
                o += [0xc6, a >> 8, a & 255]
            else:
                o += [rng.choice([0x9d, 0x4c, 0x5c])] * rng.randrange(1, 6)
    elif sim == "i8048":
        while len(o) < n:
            k = rng.random()
            if k < .3:
                o += [0x23, b(), 0x62] + [rng.choice([0x55, 0x45, 0x65])]
            elif k < .5:
                o += [rng.choice([0x05, 0x15, 0x25, 0x35, 0x93, 0x42, 0x16])]
                if o[-1] == 0x16:
                    o += [rng.randrange(256)]
            elif k < .6:
                o += [rng.choice([0x39, 0x3a, 0x02, 0x3c, 0x3d, 0x3e, 0x3f, 0x8c, 0x9f, 0x75, 0x08, 0x09, 0x0a])]
            elif k < .7:
                o += [0xbf, rng.choice([3, 20, 70]), 0xef, (len(o) + 2) & 0xff]
            else:
                o += [rng.choice([0x00, 0x17, 0x97, 0xa7, 0xb5, 0x95])] * rng.randrange(1, 6)
    return o[:n]


def irq_preamble(sim, rng):
    """code that sets timers and the interrupt system going"""
    o = []
    if sim == "s51":
        r = lambda: rng.choice([0, 0xff, 0xf0, 0xfe, rng.randrange(256)])
        w = [(0x89, rng.randrange(256)), (0x8c, r()), (0x8a, r()), (0x8d, r()), (0x8b, r()), (0x81, rng.choice([0x20, 0x40, 0x60])),
             (0x98, rng.randrange(256)), (0xb8, rng.randrange(256)), (0xc8, rng.randrange(256)), (0xcd, r()), (0xcc, r())]
        rng.shuffle(w)
        for a, v in w[:rng.randrange(3, len(w) + 1)] + [(0x88, rng.choice([0x50, 0x10, 0x55, 0x05, rng.randrange(256)])), (0xa8, 0x80 | rng.randrange(256))]:
            o += [0x75, a, v]
    else:
        mv = lambda a, v: [0x35, v, a >> 8, a & 255]
        w = [mv(0x50c7, 0xff), mv(0x50ca, 0xff), mv(0x5340, 1), mv(0x5343 if rng.random() < .5 else 0x5341, 1), mv(0x5347, rng.choice([0, 1, 3])),
             mv(0x5348, rng.choice([1, 5, 40])), mv(0x5300, 1), mv(0x5303 if rng.random() < .5 else 0x5301, rng.randrange(1, 32)), mv(0x530f, 0), mv(0x5310, rng.choice([3, 20, 99])),
             mv(0x5250, 1), mv(0x5254, rng.randrange(1, 32)), mv(0x5262, 0), mv(0x5263, rng.choice([3, 20, 99])), mv(0x5235, rng.randrange(256)),
             mv(0x5232, rng.choice([0, 1])), mv(0x5231, rng.randrange(256))] + [mv(0x7f70 + rng.randrange(8), rng.randrange(256)) for _ in range(2)]
        rng.shuffle(w)
        for x in w[:rng.randrange(3, len(w) + 1)]:
            o += x
        o += [0x9a]
    return o


def ihex(cells, base, cellbytes=1, rec=32):
    """Intel hex image (little endian cells, byte addresses), 16-bit addresses, with extended records above 64K."""
    if cellbytes == 1:
        b = bytes(c & 0xff for c in cells)
    else:
        b = b"".join((c & ((1 << (8 * cellbytes)) - 1)).to_bytes(cellbytes, "little") for c in cells)
    a0 = base * cellbytes
    out, seg = [], 0
    i = 0
    while i < len(b):
        a = a0 + i
        if a >> 16 != seg:
            seg = a >> 16
            out.append(rec_line(0, 4, seg.to_bytes(2, "big")))
        n = min(rec, len(b) - i, 0x10000 - (a & 0xffff))
        out.append(rec_line(a & 0xffff, 0, b[i:i + n]))
        i += n
    out.append(":00000001FF\n")
    return "".join(out).encode()


def rec_line(addr, typ, data):
    b = bytes([len(data), addr >> 8 & 255, addr & 255, typ]) + data
    return ":" + b.hex().upper() + "%02X\n" % (-sum(b) & 255)


def setmem_cmds(sim, cells, base, space=None, per=16):
    """Console commands that place the cells (works for every cell width)."""
    sp = space or SIMS[sim][1]
    o = []
    for i in range(0, len(cells), per):
        o.append("set mem %s 0x%x %s\n" % (sp, base + i, " ".join("0x%x" % c for c in cells[i:i + per])))
    return "".join(o)


def observe_cmds(sim, full=False):
    o = ["info registers\n", "state\n"]
    for name, lo, hi, w in SIMS[sim][5]:
        if not full and hi - lo > 0x1fff:
            hi = lo + 0x7ff
        o.append("dump /h %s 0x%x 0x%x 32\n" % (name, lo, hi))
    return "".join(o)


def place(sim, cells, fill=True):
    """-> (files, command-line args, console commands) that load the pattern (repeated over the code area if fill)."""
    _, space, base, size, cb, _ = SIMS[sim]
    if cb == 1:
        reps = max(1, size // len(cells)) if fill else 1
        return [("p.ihx", ihex_rep(cells, base, reps))], ["p.ihx"], ["pc 0x%x" % base]
    n = min(size, 0x800) if fill else len(cells)
    c = (cells * (n // len(cells) + 1))[:n]
    return [], [], setmem_cmds(sim, c, base, per=32).split("\n")[:-1] + ["pc 0x%x" % base]


def ihex_rep(cells, base, reps):
    b = bytes(c & 0xff for c in cells) * reps
    out, seg = [], 0
    for i in range(0, len(b), 128):
        a = base + i
        if a >> 16 != seg:
            seg = a >> 16
            out.append(rec_line(0, 4, seg.to_bytes(2, "big")))
        out.append(rec_line(a & 0xffff, 0, b[i:i + 128]))
    out.append(":00000001FF\n")
    return "".join(out).encode()
