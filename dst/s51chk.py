"""8051 refinement: a random machine state, program and environment, run on the simulator in pieces and on the reference model."""
from .core import Viol
from . import script, sims
from .models import m51
from .models.m51 import M51, Unspec

VEC = (0x03, 0x0b, 0x13, 0x1b, 0x23, 0x2b)
ORG, ISR = 0x80, 0x4000


def image(case):
    """-> 64K of code"""
    pat = case.get("pat") or [0]
    rom = bytearray((bytes(pat) * (65536 // len(pat) + 1))[:65536])
    flat = [b for i in case["code"] for b in i]
    flat += [0x02, ORG >> 8, ORG & 255]
    flat = flat[:0x3000]
    rom[ORG:ORG + len(flat)] = bytes(flat)
    if case.get("isrs"):
        rom[0:3] = bytes([0x02, ORG >> 8, ORG & 255])
        for k, v in enumerate(VEC):
            b = [x for i in case["i%02x" % v] for x in i] + [0x32]
            a = ISR + 0x400 * k
            rom[v:v + 3] = bytes([0x02, a >> 8, a & 255])
            rom[a:a + len(b)] = bytes(b)
    elif case.get("jump0", True):
        rom[0:3] = bytes([0x02, ORG >> 8, ORG & 255])
    return rom


def hexfile(rom, pat):
    """the cells which differ from the repeated pattern are not singled out: whole image"""
    out = []
    for a in range(0, 65536, 128):
        out.append(sims.rec_line(a, 0, bytes(rom[a:a + 128])))
    out.append(":00000001FF\n")
    return "".join(out).encode()


def snap(m):
    return {"pc": m.pc, "ticks": m.ticks * 12, "iram": list(m.iram), "sfr": [m.rd(a) for a in range(0x80, 0x100)], "tx": list(m.tx),
            "isr": m.t_isr * 12, "idle": m.t_idle * 12, "inst": m.n_inst, "state": m.state}


class Counted(M51):
    t_isr = t_idle = n_inst = 0

    def exec1(s):
        inisr = bool(s.levels)
        n = M51.exec1(s)
        s.n_inst += 1
        if inisr:
            s.t_isr += n
        return n

    def step(s):
        if s.state == "idle":
            s.t_idle += 1
            if s.levels:
                s.t_isr += 1
        elif s.state == "pd" and s.levels:
            s.t_isr += 1
        k = len(s.accepted)
        M51.step(s)
        s.t_isr += len(s.accepted) - k


def model(case):
    m = Counted(t2="2" in case["typ"], cmos="C" in case["typ"])
    m.rom = image(case)
    m.iram[:] = case["iram"]
    m.rxq = list(case.get("rx") or [])
    return m


def run_model(case):
    """-> (model, [(segment, snapshot)])"""
    m = model(case)
    out = [([0, None], snap(m))]
    for seg in case["segs"]:
        n, env = seg
        if env:
            for p, v in env:
                m.set_pins(p, v)
        done = 0
        try:
            while done < n:
                if m.state == "pd":
                    raise Unspec("power down")
                m.step()
                done += 1
        except Unspec as e:
            m.why = str(e)
            if done:
                # repeat up to the last specified step
                m2 = replay_model(case, out, [done, env])
                out.append(([done, env], snap(m2)))
                m2.why = m.why
                m2.cov = m.cov
                return m2, out
            m2 = replay_model(case, out, None)
            m2.why = m.why
            m2.cov = m.cov
            return m2, out
        out.append(([n, env], snap(m)))
    m.why = None
    return m, out


def replay_model(case, out, extra):
    m = model(case)
    for n, env in [o[0] for o in out] + ([extra] if extra else []):
        if env:
            for p, v in env:
                m.set_pins(p, v)
        for _ in range(n):
            m.step()
    return m


NAMES = {0xe0: "ACC", 0xf0: "B", 0xd0: "PSW", 0x81: "SP", 0x82: "DPL", 0x83: "DPH", 0x80: "P0", 0x90: "P1", 0xa0: "P2", 0xb0: "P3",
         0xb8: "IP", 0xa8: "IE", 0x89: "TMOD", 0x88: "TCON", 0x8c: "TH0", 0x8a: "TL0", 0x8d: "TH1", 0x8b: "TL1", 0x98: "SCON",
         0x99: "SBUF", 0x87: "PCON", 0xc8: "T2CON", 0xc9: "T2MOD", 0xca: "RCAP2L", 0xcb: "RCAP2H", 0xcc: "TL2", 0xcd: "TH2"}


def check(case, ctx):
    m, snaps = run_model(case)
    typ = case["typ"]
    top = 0xff if "2" in typ else 0x7f
    cmds = ["fill xram 0 0xffff 0"]
    for a in range(0, top + 1, 32):
        cmds.append("set mem iram 0x%x %s" % (a, " ".join("%d" % x for x in case["iram"][a:a + 32])))
    cmds.append('file "p.ihx"')
    args = []
    files = [("p.ihx", hexfile(image(case), case.get("pat")))]
    serial = "rx" in case
    if serial:
        args += ["-S", "uart=0,in=urx,out=utx"]
        cmds.append("expr uart0_check_often=1")
        files.append(("urx", bytes(case["rx"])))
    marks = []
    for (n, env), _ in snaps:
        for p, v in env or []:
            cmds.append("set hardware port[%d] 0x%x" % (p, v))
        if n:
            cmds.append("step %d" % n)
        marks.append(len(cmds))
        cmds += ["state", "dump /h sfr 0x80 0xff 32", "dump /h iram 0 0x%x 32" % top]
    xa = sorted(m.xw)[:24]
    xm = len(cmds)
    cmds += ["dump /h xram 0x%x 0x%x" % (a, a) for a in xa]

    def extra(s):
        if serial:
            s.file("utx", b"")

    r, o = script.run(ctx, "s51", typ, cmds, args=args, files=files, extra=extra, limit=4000000)
    prev = 0
    for ((n, env), sn), mk in zip(snaps, marks):
        where = "after %d steps (PC 0x%04x)" % (n, sn["pc"])
        if n:
            st = script.stop_of(o[mk - 1] or "")
            if st is None or st[1] != 109:
                raise Viol("stop", "step %d: stop reason %s, %s" % (n, st, (o[mk - 1] or "")[:100]))
        c = script.counters(o[mk] or "")
        d = script.parse_dump(o[mk + 1] or "")
        bad = []
        for a in range(0x80, 0x100):
            if d.get(a) != sn["sfr"][a - 0x80]:
                bad.append("%s 0x%02x is %s, expected 0x%02x" % (NAMES.get(a, "sfr"), a, "0x%02x" % d[a] if a in d else None, sn["sfr"][a - 0x80]))
        if c.get("pc") != sn["pc"]:
            bad.insert(0, "PC is 0x%04x, expected 0x%04x" % (c.get("pc", -1), sn["pc"]))
        if c.get("total") != sn["ticks"]:
            bad.append("clocks are %s, expected %d" % (c.get("total"), sn["ticks"]))
        for k in ("isr", "idle", "inst"):
            if c.get(k) != sn[k]:
                bad.append("%s is %s, expected %d" % (k, c.get(k), sn[k]))
        i = script.parse_dump(o[mk + 2] or "")
        for a in range(top + 1):
            if i.get(a) != sn["iram"][a]:
                bad.append("iram 0x%02x is %s, expected 0x%02x" % (a, "0x%02x" % i[a] if a in i else None, sn["iram"][a]))
        if bad:
            code = ["%02x" % m.rom[(prev + k) & 0xffff] for k in range(3)]
            raise Viol("state", "after step %d from PC 0x%04x (%s): %s" % (n, prev, " ".join(code), "; ".join(bad[:6])))
        prev = sn["pc"]
    for k, a in enumerate(xa):
        v = script.parse_dump(o[xm + k] or "").get(a)
        if v != m.xw[a]:
            raise Viol("xram", "xram 0x%04x is %s, expected 0x%02x" % (a, v, m.xw[a]))
    if serial:
        got = r.eps["utx"].out
        if got != bytes(m.tx):
            raise Viol("tx", "serial output %r, expected %r" % (got[:60], bytes(m.tx)[:60]))
    for k in m.cov:
        ctx.mark(k)
    for v in m.accepted:
        ctx.mark("irqs")
    if m.why:
        ctx.mark("unspec")
        ctx.mark("why " + m.why)
    ctx.mark("steps", sum(s[0][0] for s in snaps))
    ctx.mark("cycles", m.ticks)


# --- generators

TYPES = ["C52", "C52", "C52", "52", "51", "C51"]

SAFE = [0xe0, 0xe0, 0xf0, 0xd0, 0x82, 0x83, 0x80, 0x90, 0xa0, 0xb0]
OPS = [o for o in range(256) if o != 0xa5]
LEN = {}
for _o in range(256):
    _h, _l = _o >> 4, _o & 15
    n = 1
    if _l == 1:
        n = 2
    elif _o in (0x02, 0x12, 0x10, 0x20, 0x30, 0x43, 0x53, 0x63, 0x75, 0x85, 0x90, 0xd5) or _o >= 0xb4 and _o <= 0xbf:
        n = 3
    elif _l == 0 and _h in (4, 5, 6, 7, 8, 10, 11, 12, 13) or _l == 2 and _h in (4, 5, 6, 7, 8, 9, 10, 11, 12, 13):
        n = 2
    elif _l == 4 and _h in (2, 3, 4, 5, 6, 7, 9) or _l == 5 and _h in (0, 1, 2, 3, 4, 5, 6, 9, 12, 14, 15):
        n = 2
    elif _h == 7 and _l >= 6 or _h == 8 and _l >= 6 or _h == 10 and _l >= 6 or _h == 13 and _l >= 8:
        n = 2
    LEN[_o] = n


def byte(rng):
    return rng.choice([rng.randrange(256), rng.randrange(256), 0, 1, 0x7f, 0x80, 0xff, rng.randrange(16), 0x99, 0x66])


def direct(rng, sfrs):
    return rng.choice(sfrs) if rng.random() < 0.5 else rng.randrange(0x80)


def bitaddr(rng, sfrs):
    b = [x for x in sfrs if not x & 7]
    return rng.choice(b) + rng.randrange(8) if rng.random() < 0.5 else rng.randrange(0x80)


def instr(rng, sfrs, ops=OPS, flow=True):
    while True:
        o = rng.choice(ops)
        l, h = o & 15, o >> 4
        if o == 0xa5 or not flow and (l == 1 or o in (0x02, 0x12, 0x22, 0x32, 0x73)):
            continue
        break
    b = [o]
    if l == 5 and h in (0, 1, 2, 3, 4, 5, 6, 9, 12, 14, 15) or o in (0x42, 0x52, 0x62, 0xc0, 0xd0, 0x86, 0x87) or 0x88 <= o <= 0x8f or o in (0xa6, 0xa7) or 0xa8 <= o <= 0xaf:
        a = direct(rng, sfrs)
        while o == 0xe5 and a == 0xe0:
            a = direct(rng, sfrs)
        b.append(a)
    elif o in (0x43, 0x53, 0x63, 0x75):
        b += [direct(rng, sfrs), byte(rng)]
    elif o == 0x85:
        b += [direct(rng, sfrs), direct(rng, sfrs)]
    elif o == 0xb5 or o == 0xd5:
        b += [direct(rng, sfrs), rel(rng, flow)]
    elif 0xb4 <= o <= 0xbf:
        b += [byte(rng), rel(rng, flow)]
    elif 0xd8 <= o <= 0xdf or o in (0x40, 0x50, 0x60, 0x70, 0x80):
        b += [rel(rng, flow)]
    elif o in (0x10, 0x20, 0x30):
        b += [bitaddr(rng, sfrs), rel(rng, flow)]
    elif o in (0x72, 0x82, 0x92, 0xa0, 0xb0, 0xa2, 0xb2, 0xc2, 0xd2):
        b.append(bitaddr(rng, sfrs))
    else:
        b += [byte(rng) for _ in range(LEN[o] - 1)]
    return b


def rel(rng, flow):
    return rng.choice([0, 1, 2, 3, 5, rng.randrange(30)]) if not flow or rng.random() < 0.6 else rng.choice([0x80, 0x7f, 0xfe, rng.randrange(256)])


def noa5(b):
    return [0xa4 if x == 0xa5 else x for x in b]


def segments(rng, total, env, singles=0.3, maxn=60):
    out, done = [], 0
    kind = rng.random()
    while done < total and len(out) < 40:
        n = 1 if rng.random() < singles else rng.randrange(1, maxn)
        e = env() if env and rng.random() < 0.6 else None
        out.append([n, e])
        done += n
    return out


def iram(rng):
    return [byte(rng) for _ in range(256)]


def gen_isa(rng, tier):
    typ = rng.choice(TYPES)
    full = rng.random() < 0.2
    sfrs = SAFE + ([0x81] if rng.random() < 0.2 else []) + (list(range(0x80, 0x100)) if full else [])
    k = rng.random()
    ops = OPS if k < 0.5 else rng.sample(OPS, rng.choice([2, 5, 20]))
    if k < 0.5 and rng.random() < 0.5:
        ops = ops + [0x22] * 12
    pat = [b for _ in range(rng.choice([20, 60, 200])) for b in noa5(instr(rng, sfrs, ops))]
    code = [noa5(instr(rng, sfrs, ops)) for _ in range(rng.choice([10, 40, 120]))]
    # initial registers
    pre = [[0x75, a, byte(rng)] for a in (0xe0, 0xf0, 0xd0, 0x82, 0x83, 0xa0)] + [[0x75, 0x81, rng.choice([7, 0x20, 0x30, 0x50, 0x70 if "2" not in typ else 0xa0])]]
    tot = rng.choice([40, 150, 400]) if tier == "quick" else rng.choice([100, 600, 3000])
    env = lambda: [[p, byte(rng)] for p in range(4) if rng.random() < 0.4]
    return {"typ": typ, "iram": iram(rng), "pat": pat, "code": pre + code, "isrs": False,
            "segs": segments(rng, tot, env if rng.random() < 0.5 else None, rng.choice([0, 0.3, 0.9]), rng.choice([10, 60, 200])), "_lists": ["segs", "code", "pat"]}


QUIET = [o for o in OPS if not (o & 15 == 1 or o in (0x02, 0x12, 0x22, 0x32, 0x73, 0xd0, 0xc0, 0x80, 0x10))]


def tval(rng):
    return rng.choice([0, 0xff, 0xfe, 0xf8, 0xf0, rng.randrange(256), rng.randrange(0xe0, 256)])


def t2conv(rng):
    return rng.choice([0x04, 0x04, 0x0c, 0x05, 0x0d, 0x06, 0x0e, 0x07, 0x0f, 0x24, 0x14, 0x34, 0x3e, 0x2c, 0, 0x08, rng.randrange(256) & 0x3f])


def tpoke(rng, typ):
    """one access to the timers"""
    k = rng.randrange(12 if "2" not in typ else 17)
    if k == 0:
        return [0x75, 0x89, tmod(rng)]
    if k == 1:
        return [rng.choice([0xd2, 0xd2, 0xc2, 0xb2]), 0x88 + rng.choice([4, 6])]
    if k == 2:
        return [0xc2, 0x88 + rng.choice([5, 7])]
    if k == 3:
        return [0x75, rng.choice([0x8a, 0x8b, 0x8c, 0x8d]), tval(rng)]
    if k == 4:
        return [0x75, 0x88, rng.choice([0x50, 0x10, 0x40, 0, 0x55])]
    if k in (5, 6, 7):
        return [rng.choice([0xb2, 0xb2, 0xd2, 0xc2]), 0xb0 + rng.choice([2, 3, 4, 4, 5, 5])]
    if k == 8:
        return [0x63, 0xb0, rng.choice([0x30, 0x10, 0x20, 0x0c, 0x3c])]
    if k == 9:
        return [0xe5, rng.choice([0x8a, 0x8b, 0x8c, 0x8d, 0x88, 0x89])]
    if k == 10:
        return [rng.choice([0x05, 0x15]), rng.choice([0x8a, 0x8b, 0x8c, 0x8d])]
    if k == 11:
        return [0x10, 0x88 + rng.choice([5, 7]), 0]
    if k == 12:
        return [0x75, 0xc8, t2conv(rng)]
    if k == 13:
        return [0x75, rng.choice([0xca, 0xcb, 0xcc, 0xcd]), tval(rng)]
    if k == 14:
        return [rng.choice([0xb2, 0xb2, 0xd2, 0xc2]), 0x90 + rng.choice([0, 0, 1])]
    if k == 15:
        return [rng.choice([0xc2, 0xd2, 0xb2]), 0xc8 + rng.randrange(8)]
    return rng.choice([[0x75, 0xc9, rng.choice([0, 1, 1])], [0xe5, rng.choice([0xcc, 0xcd, 0xca, 0xcb, 0xc8])], [0x63, 0x90, rng.choice([1, 2, 3])]])


def tmod(rng):
    v = rng.randrange(256)
    if v & 3 == 3:
        v |= 0x30
    if rng.random() < 0.5:
        v &= 0x77
    return v


def gen_timers(rng, tier):
    typ = rng.choice(TYPES)
    r = rng.choice([0.1, 0.4, 0.9])
    body = []
    for _ in range(rng.choice([10, 40, 120])):
        body.append(tpoke(rng, typ) if rng.random() < r else noa5(instr(rng, [0xe0, 0xf0], QUIET, flow=False)))
    pre = [[0x75, 0x89, tmod(rng)]] + [[0x75, a, tval(rng)] for a in (0x8a, 0x8b, 0x8c, 0x8d)] + [[0x75, 0x88, rng.choice([0x50, 0x50, 0x55, 0x10, 0x40])]]
    if "2" in typ:
        pre += [[0x75, a, tval(rng)] for a in (0xca, 0xcb, 0xcc, 0xcd)] + ([[0x75, 0xc9, 1]] if rng.random() < 0.25 else []) + [[0x75, 0xc8, t2conv(rng)]]
    rng.shuffle(pre)
    pins = {3: [0xff, 0xff, 0xef, 0xdf, 0xcf, 0xfb, 0xf7, 0xf3], 1: [0xff, 0xfe, 0xfd, 0xfc]}
    env = lambda: [[p, rng.choice(pins[p])] for p in rng.choice([[3], [1], [3, 1], [3, 3]])]
    tot = rng.choice([60, 200, 500]) if tier == "quick" else rng.choice([200, 1000, 5000])
    once = rng.random() < 0.5
    return {"typ": typ, "iram": [0] * 256 if once else iram(rng), "code": pre + body, "isrs": False,
            "segs": segments(rng, tot, env if rng.random() < 0.8 else None, rng.choice([0, 0.3, 0.9]), rng.choice([5, 30, 150])), "_lists": ["segs", "code"]}


def gen_irq(rng, tier):
    typ = rng.choice(TYPES)
    iev = lambda: rng.choice([0xbf, 0xff, 0x80 | rng.randrange(64), 0x80 | rng.randrange(64), rng.randrange(256)])
    ipv = lambda: rng.choice([0, 0x3f, rng.randrange(64), 1 << rng.randrange(6)])

    def poke():
        k = rng.randrange(14)
        if k == 0:
            return [0x75, 0xa8, iev()]
        if k == 1:
            return [0x75, 0xb8, ipv()]
        if k == 2:
            return [rng.choice([0xd2, 0xc2, 0xb2]), 0xa8 + rng.choice([7, 0, 1, 2, 3, 4, 5])]
        if k == 3:
            return [rng.choice([0xd2, 0xc2, 0xb2]), 0xb8 + rng.randrange(6)]
        if k == 4:
            return [0xd2, 0x88 + rng.choice([1, 3, 5, 7])]
        if k == 5:
            return [0xd2, 0x98 + rng.choice([0, 1])]
        if k == 6:
            return [rng.choice([0xd2, 0xc2]), 0x88 + rng.choice([0, 2])]
        if k in (7, 8):
            return [0xb2, 0xb0 + rng.choice([2, 3])]
        if k == 9:
            return [0x43, 0x87, 0x01]
        if k == 10 and "2" in typ:
            return [0xd2, 0xc8 + rng.choice([6, 7])]
        if k == 11:
            return [0x43, 0x88, 1 << rng.randrange(8)]
        if k == 12:
            return [0x43, rng.choice([0xa8, 0xb8]), 1 << rng.randrange(8)]
        return [0xc2, rng.choice([0x88 + rng.randrange(8), 0x98, 0x99])]

    safe = [0xe0, 0xf0]
    ops = [o for o in QUIET if o not in (0x06, 0x07)]
    r = rng.choice([0.1, 0.3, 0.7])
    body = [poke() if rng.random() < r else noa5(instr(rng, safe, ops, flow=False)) for _ in range(rng.choice([10, 40, 100]))]
    r0 = tval(rng)
    pre = [[0x75, 0x81, rng.choice([0x30, 0x50, 0x60])], [0x75, 0x89, rng.choice([0x22, 0x11, 0x00, 0x23 & 0x33 | 0x30, 0x12])],
           [0x75, 0x8c, tval(rng)], [0x75, 0x8d, tval(rng)], [0x75, 0x8a, tval(rng)], [0x75, 0x8b, tval(rng)],
           [0x75, 0xb8, ipv()], [0x75, 0xa8, iev()], [0x75, 0x88, rng.choice([0x55, 0x50, 0x00, 0x05, 0x45, 0x10, 0x51])]]
    if "2" in typ and rng.random() < 0.6:
        pre += [[0x75, 0xcb, 0xff], [0x75, 0xca, tval(rng)], [0x75, 0xc8, rng.choice([0x04, 0x0c, 0x0d, 0x05])]]
        if rng.random() < 0.3:
            pre += [[0x75, 0xc9, 1]]
    if rng.random() < 0.4:
        pre += [[0x75, 0x98, rng.choice([0x00, 0x40, 0x80])], [0x75, 0x99, 0x41]]
    c = {"typ": typ, "iram": iram(rng), "code": pre + body, "isrs": True}
    for v in VEC:
        b = [poke() if rng.random() < r / 3 else noa5(instr(rng, safe, ops, flow=False)) for _ in range(rng.choice([0, 1, 3, 10]))]
        if v == 0x23 and rng.random() < 0.8:
            b.insert(0, [0x53, 0x98, 0xfc])
        if v == 0x2b and rng.random() < 0.8:
            b.insert(0, [0x53, 0xc8, 0x3f])
        if rng.random() < 0.1:
            b.append([0x22])
        c["i%02x" % v] = b
    env = lambda: [[3, rng.choice([0xff, 0xff, 0xfb, 0xf7, 0xf3])]] + ([[1, rng.choice([0xff, 0xfd])]] if rng.random() < 0.3 else [])
    tot = rng.choice([60, 200, 500]) if tier == "quick" else rng.choice([200, 1000, 5000])
    c["segs"] = segments(rng, tot, env if rng.random() < 0.8 else None, rng.choice([0, 0.3, 0.9]), rng.choice([5, 30, 150]))
    c["_lists"] = ["segs", "code"] + ["i%02x" % v for v in VEC]
    return c


def gen_serial(rng, tier):
    typ = rng.choice(TYPES)
    body = []
    code = []
    irq = rng.random() < 0.4

    def setup():
        mode = rng.randrange(4)
        o = []
        o.append([0x75, 0x87, rng.choice([0, 0x80])])
        o.append([0x75, 0x89, rng.choice([0x20, 0x22, 0x21])])
        o.append([0x75, 0x8d, rng.choice([0xff, 0xff, 0xfe, 0xfd, 0xf8])])
        o.append([0x75, 0x8b, rng.choice([0xff, 0xf0])])
        if "2" in typ:
            o += [[0x75, 0xcb, 0xff], [0x75, 0xca, rng.choice([0xff, 0xfe, 0xfa, 0xe0])], [0x75, 0xcd, 0xff],
                  [0x75, 0xc8, rng.choice([0, 0, 0x04, 0x34, 0x14, 0x24, 0x30, 0x36])]]
        rng.shuffle(o)
        ren = rng.choice([0x10, 0x10, 0])
        o.append([0x75, 0x98, mode << 6 | ren | rng.choice([0, 0, 0x08, 0x04, 0x20, 0x2c])])
        o.append([0x75, 0x88, rng.choice([0x40, 0x40, 0x50])])
        return o

    code += setup()
    if irq:
        code += [[0x75, 0xa8, 0x90]]
    for _ in range(rng.choice([1, 2, 4])):
        for _ in range(rng.choice([1, 2, 5])):
            k = rng.randrange(4)
            if k == 0 or irq:
                code += [[0x75, 0x99, rng.randrange(256)]]
                w = rng.choice([20, 100, 200])
                code += [[0x79, w], [0xd9, 0xfe]] + ([[0x79, rng.choice([100, 255])], [0x00], [0x00], [0xd9, 0xfc]] if rng.random() < 0.5 else [])
            elif k == 1:                     # send, wait for TI
                code += [[0x75, 0x99, rng.randrange(256)], [0x30, 0x99, 0xfd], [0xc2, 0x99]]
            elif k == 2:                     # wait for RI up to a limit, read
                code += [[0x79, 0xff], [0x20, 0x98, 0x02], [0xd9, 0xfb], [0xe5, 0x99], [0xc2, 0x98]]
            else:                            # echo
                code += [[0x79, 0xff], [0x20, 0x98, 0x02], [0xd9, 0xfb], [0xc2, 0x98], [0x85, 0x99, 0x99], [0x30, 0x99, 0xfd], [0xc2, 0x99]]
        if rng.random() < 0.5:
            code += [[0xc2, 0x9c], [0x79, 0xff], [0xd9, 0xfe], [0x79, 0xff], [0x00], [0x00], [0x00], [0xd9, 0xfb]] + setup()
    c = {"typ": typ, "iram": iram(rng), "code": code, "isrs": True, "rx": [rng.randrange(0x20, 0x7f) for _ in range(rng.choice([0, 1, 3, 10]))]}
    for v in VEC:
        c["i%02x" % v] = []
    c["i23"] = [[0xc0, 0xe0], [0x30, 0x98, 0x05], [0xc2, 0x98], [0x05, 0x30], [0xe5, 0x99][:2], [0x30, 0x99, 0x02], [0xc2, 0x99], [0xd0, 0xe0]] if rng.random() < 0.7 else [[0x53, 0x98, 0xfc]]
    tot = rng.choice([500, 1500, 3000]) if tier == "quick" else rng.choice([1000, 5000, 20000])
    c["segs"] = segments(rng, tot, None, rng.choice([0, 0, 0.5]), rng.choice([50, 200, 500]))
    c["_lists"] = ["segs", "code", "rx"]
    return c
