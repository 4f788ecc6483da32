"""C18: an address space shows what the latest memory configuration put there - decoders, selected banks, bit banders - through every view."""
import re
from ..core import Viol
from .. import script

# console made spaces: name -> (start, size); "xram" is s51's own (guest visible)
SPACES = {"aa": (0, 0x60), "ab": (0x20, 0x50)}
CHIPS = {"c0": 0x60, "c1": 0x48, "c2": 0x30, "c3": 0x60, "c4": 0x18}
SW = 4  # cells of the selector space
XBASE, XSIZE = 0x100, 0x60


def nbanks(mask):
    return 1 << bin(mask).count("1")


class World:
    """Reference: every cell of a space is nothing, a chip cell, a bit of a chip cell, or belongs to a banker."""

    def __init__(self, spaces, chips):
        self.spaces = spaces
        self.chips = {c: [0] * n for c, n in chips.items()}
        self.map = {s: {} for s in spaces}
        self.bankers = []

    def cell(self, sp, a):
        """-> (chip, index, bit or None) or None"""
        m = self.map[sp].get(a)
        if m is None:
            return None
        if m[0] == "bank":
            b = m[1]
            k = b["banks"].get(self.selected(b))
            if k is None:
                return None
            return k[0], k[1] + a - b["b"], None
        return m

    def selected(self, b):
        c = self.cell(*b["sw"])
        v = self.chips[c[0]][c[1]] & b["mask"]
        return v // (b["mask"] & -b["mask"])

    def read(self, sp, a):
        c = self.cell(sp, a)
        if c is None:
            return None
        v = self.chips[c[0]][c[1]]
        return v if c[2] is None else v >> c[2] & 1

    def write(self, sp, a, v):
        c = self.cell(sp, a)
        if c is None:
            return
        if c[2] is None:
            self.chips[c[0]][c[1]] = v & 255
        elif v & 1:
            self.chips[c[0]][c[1]] |= 1 << c[2]
        else:
            self.chips[c[0]][c[1]] &= ~(1 << c[2])


class P:
    ID = "C18"
    RULE = ("Random sequences of memory commands (chips, decoders over decoders, bankers and their banks redefined, several bankers on one selector, banders, removal of chips), writes through spaces, chips, bits, "
            "expressions, fill and the guest's own instructions, and selector changes by command and by the guest; all spaces and chips are compared with a reference map after each look, commands "
            "delivered in pieces with interrupted reads.")
    QUICK_S = 45
    QUICK_N = 3600
    THOROUGH_S = 900
    SIMS = ["s51", "z80"]

    def gen(self, rng, tier):
        sim = rng.choice(["s51", "s51", "s51", "z80"])
        spaces = dict(SPACES)
        if sim == "s51":
            spaces["xram"] = (XBASE, XSIZE)
            spaces["bits"] = (0, 0x80)
        ops = []
        plain = [s for s in spaces if s != "bits"]
        chips = dict(CHIPS)
        bankers = []
        edges = {}

        def area(sp, maxn=None):
            st, n = spaces[sp]
            b = st + rng.randrange(n)
            e = min(st + n - 1, b + rng.choice([0, 1, 3, 7, 0x0f, 0x1f, 0x3f]))
            if rng.random() < .1:
                b = st
            if rng.random() < .1:
                e = st + n - 1
            seen = edges.setdefault(sp, [])
            if seen and rng.random() < .4:
                # at, one before or one behind a border of an earlier area
                x = min(st + n - 1, max(st, rng.choice(seen) + rng.choice([-1, 0, 0, 1])))
                if rng.random() < .5 and x <= e:
                    b = x
                elif x >= b:
                    e = x
            if maxn:
                e = min(e, b + maxn - 1)
            seen += [b, e]
            return b, e

        def place(n):
            """a chip with n cells free from some index"""
            ok = [c for c, k in chips.items() if k >= n]
            if not ok:
                return None
            c = rng.choice(ok)
            return c, rng.choice([0, rng.randrange(chips[c] - n + 1), chips[c] - n])

        def mkbanker():
            sp = rng.choice(plain)
            b, e = area(sp, 0x20)
            mask = rng.choice([1, 3, 3, 2, 6, 0x18, 7, 0x80])
            bs = [place(e - b + 1) for _ in range(nbanks(mask))]
            if None in bs:
                return
            sw = ("sw", rng.randrange(SW))
            if sim == "s51" and rng.random() < .3:
                sw = ("xsw", rng.randrange(SW))
            if bankers and rng.random() < .4:
                sw = rng.choice(bankers)["sw"]
            k = dict(id=len(ops), sp=sp, b=b, e=e, mask=mask, sw=sw)
            bankers.append(k)
            order = list(range(len(bs)))
            rng.shuffle(order)
            ops.append(["banker", sp, b, e, sw[0], sw[1], mask, [[i, bs[i][0], bs[i][1]] for i in order]])

        for _ in range(rng.choice([6, 12, 25, 40])):
            q = rng.random()
            if q < .2:
                sp = rng.choice(plain)
                b, e = area(sp)
                p = place(e - b + 1)
                if p:
                    ops.append(["dec", sp, b, e, p[0], p[1]])
            elif q < .3:
                mkbanker()
            elif q < .36 and bankers:
                k = rng.choice(bankers)
                p = place(k["e"] - k["b"] + 1)
                if p:
                    ops.append(["rebank", k["sp"], k["b"], rng.randrange(nbanks(k["mask"])), p[0], p[1]])
            elif q < .5 and bankers:
                k = rng.choice(bankers)
                v = rng.randrange(256) if rng.random() < .5 else rng.randrange(nbanks(k["mask"])) * (k["mask"] & -k["mask"])
                ops.append(["w", k["sw"][0], k["sw"][1], [v], rng.choice(["expr", "expr", "guest"])])
            elif q < .54 and sim == "s51":
                bpc = rng.choice([8, 8, 4, 1, 3])
                b = rng.choice([0, 8, 0x10, rng.randrange(0x80)])
                e = min(0x7f, b + rng.choice([0, 7, 0xf, 0x1f, 4, 0x7f]))
                d = rng.choice([1, 1, 2, 8])
                need = (e - b) // bpc * d + 1
                p = place(need)
                if p:
                    ops.append(["bander", "bits", b, e, p[0], p[1], bpc, d])
            elif q < .57:
                c = rng.choice(list(chips))
                ops.append(["rm", c])
                if rng.random() < .8:
                    ops.append(["chip", c, chips[c]])
            elif q < .62:
                ops.append(["look"])
            elif q < .7:
                c = rng.choice(list(chips))
                a = rng.randrange(chips[c])
                ops.append(["cw", c, a, [rng.randrange(256) for _ in range(rng.choice([1, 1, 4]))], rng.choice(["set", "fill", "expr"])])
            else:
                sp = rng.choice(list(spaces))
                st, n = spaces[sp]
                a = st + rng.randrange(n)
                if sp == "bits":
                    ops.append(["w", sp, a, [rng.randrange(2)], rng.choice(["expr", "set"])])
                else:
                    ops.append(["w", sp, a, [rng.randrange(256) for _ in range(rng.choice([1, 1, 2, 5]))], rng.choice(["expr", "set", "fill", "guest", "guest"])])
        return dict(sim=sim, ops=ops, chunk=rng.choice([0, 0, 1, 9, 100]), err=[rng.randrange(1, 30) for _ in range(rng.choice([0, 0, 2, 5]))], _lists=["ops", "err"])

    def trivial(self, case):
        return len(case["ops"]) < 3

    def check(self, case, ctx):
        sim = case["sim"]
        spaces = dict(SPACES, sw=(0, SW))
        if sim == "s51":
            spaces.update(xram=(XBASE, XSIZE), bits=(0, 0x80), xsw=(0x800, SW))
        real = lambda sp: "xram" if sp == "xsw" else sp
        shift = lambda sp, a: a + 0x800 if sp == "xsw" else a
        w = World(spaces, dict(CHIPS, scc=SW, xcc=SW))
        cmds, looks = [], []
        C = cmds.append
        for c, n in CHIPS.items():
            C("memory create chip %s 0x%x 8" % (c, n))
            C("fill %s 0 0x%x 0" % (c, n - 1))
        for s, (st, n) in SPACES.items():
            C("memory create as %s 0x%x 0x%x" % (s, st, n))
        for cn, sp in (("scc", "sw"), ("xcc", "xsw")):
            if sp not in spaces:
                continue
            C("memory create chip %s %d 8" % (cn, SW))
            C("fill %s 0 %d 0" % (cn, SW - 1))
            if sp == "sw":
                C("memory create as sw 0 %d" % SW)
            C("memory create addressdecoder %s 0x%x 0x%x %s 0" % (real(sp), shift(sp, 0), shift(sp, SW - 1), cn))
            for i in range(SW):
                w.map[sp][shift(sp, i)] = (cn, i, None)
        if sim == "s51":
            # the guest's side: MOV DPTR,#a / MOV A,#v / MOVX @DPTR,A
            C("fill rom 0 0x20 0")
            # native mappings are not the reference's business
        gone = set()

        def unmap(sp, b, e):
            for a in range(b, e + 1):
                w.map[sp].pop(a, None)

        def look():
            for sp in spaces:
                st, n = spaces[sp]
                looks.append((len(cmds), real(sp), {a: w.read(sp, a) for a in range(st, st + n)}))
                C("dump /h %s 0x%x 0x%x" % (real(sp), st, st + n - 1))
            for c, v in w.chips.items():
                if c in gone or (c == "xcc" and sim != "s51"):
                    continue
                looks.append((len(cmds), c, dict(enumerate(v))))
                C("dump /h %s 0 0x%x" % (c, len(v) - 1))

        def guest(sp, a, v):
            C("set memory rom 0 0x90 0x%x 0x%x 0x74 0x%x 0xf0" % (a >> 8, a & 255, v))
            C("pc 0")
            C("step 3")

        def guestread(sp, a):
            C("set memory rom 0 0x90 0x%x 0x%x 0xe0" % (a >> 8, a & 255))
            C("pc 0")
            C("step 2")
            C("dump /h sfr 0xe0 0xe7")
            looks.append((len(cmds) - 1, "sfr", {0xe0: w.read(sp, a)}))
        for op in case["ops"]:
            k = op[0]
            if k == "dec":
                _, sp, b, e, c, cb = op
                if c in gone:
                    continue
                C("memory create addressdecoder %s 0x%x 0x%x %s 0x%x" % (sp, b, e, c, cb))
                for a in range(b, e + 1):
                    w.map[sp][a] = (c, cb + a - b, None)
            elif k == "banker":
                _, sp, b, e, ss, sa, mask, bs = op
                if any(c in gone for _, c, _ in bs):
                    continue
                C("memory create banker %s 0x%x 0x%x %s 0x%x 0x%x" % (real(ss), shift(ss, sa), mask, sp, b, e))
                bk = dict(sp=sp, b=b, e=e, mask=mask, sw=(ss, shift(ss, sa)), banks={})
                for nr, c, cb in bs:
                    C("memory create bank %s 0x%x %d %s 0x%x" % (sp, b, nr, c, cb))
                    bk["banks"][nr] = (c, cb)
                for a in range(b, e + 1):
                    w.map[sp][a] = ("bank", bk)
                w.bankers.append(bk)
            elif k == "rebank":
                _, sp, b, nr, c, cb = op
                m = w.map[sp].get(b)
                # addressed by its first address: only while it has that address
                if not m or m[0] != "bank" or m[1]["b"] != b or c in gone or nr not in m[1]["banks"]:
                    continue
                if not all(w.map[sp].get(a) == m for a in range(b, m[1]["e"] + 1)) or cb + m[1]["e"] - b >= CHIPS[c]:
                    continue
                C("memory create bank %s 0x%x %d %s 0x%x" % (sp, b, nr, c, cb))
                m[1]["banks"][nr] = (c, cb)
            elif k == "bander":
                _, sp, b, e, c, cb, bpc, d = op
                if c in gone:
                    continue
                C("memory create bander %s 0x%x 0x%x %s 0x%x %d %d" % (sp, b, e, c, cb, bpc, d))
                for i in range(e - b + 1):
                    w.map[sp][b + i] = (c, cb + i // bpc * d, i % bpc)
            elif k == "rm":
                c = op[1]
                if c in gone:
                    continue
                C("memory remove chip %s" % c)
                gone.add(c)
                for sp in w.map:
                    for a, m in list(w.map[sp].items()):
                        if m[0] == c or (m[0] == "bank" and any(x[0] == c for x in m[1]["banks"].values())):
                            del w.map[sp][a]
            elif k == "chip":
                c, n = op[1], op[2]
                if c not in gone:
                    continue
                gone.discard(c)
                C("memory create chip %s 0x%x 8" % (c, n))
                C("fill %s 0 0x%x 0" % (c, n - 1))
                w.chips[c] = [0] * n
            elif k == "look":
                look()
            elif k == "cw":
                _, c, a, vs, how = op
                if c in gone:
                    continue
                vs = vs[:len(w.chips[c]) - a]
                if how == "fill":
                    C("fill %s 0x%x 0x%x %d" % (c, a, a + len(vs) - 1, vs[0]))
                    vs = [vs[0]] * len(vs)
                elif how == "set" or len(vs) > 1:
                    C("set memory %s 0x%x %s" % (c, a, " ".join(map(str, vs))))
                else:
                    C("%s[0x%x]=%d" % (c, a, vs[0]))
                for i, v in enumerate(vs):
                    w.chips[c][a + i] = v
            elif k == "w":
                _, sp, a, vs, how = op
                if sp not in spaces:
                    continue
                a = shift(sp, a)
                st, n = spaces[sp]
                vs = vs[:st + n - a]
                if any(w.cell(sp, a + i) is None for i in range(len(vs))):
                    continue
                ctx.mark("write." + how)
                if how == "guest" and real(sp) == "xram":
                    for i, v in enumerate(vs):
                        guest(sp, a + i, v)
                        w.write(sp, a + i, v)
                    guestread(sp, a)
                    continue
                if how == "fill":
                    C("fill %s 0x%x 0x%x %d" % (real(sp), a, a + len(vs) - 1, vs[0]))
                    vs = [vs[0]] * len(vs)
                elif how == "set" and sp not in ("sw", "xsw"):
                    C("set memory %s 0x%x %s" % (real(sp), a, " ".join(map(str, vs))))
                else:
                    for i, v in enumerate(vs):
                        C("%s[0x%x]=%d" % (real(sp), a + i, v))
                for i, v in enumerate(vs):
                    w.write(sp, a + i, v)
            ctx.mark("op." + k)
        look()

        def extra(s):
            for i, n in enumerate(case["err"]):
                s.rfault("x.cmd", n, *(("err", 4) if i & 1 else ("short", 1 + n)))
        r, out = script.run(ctx, sim, {"s51": "C52", "z80": "Z80"}[sim], cmds, extra=extra, limit=6000000, chunk=case["chunk"])
        for i, name, want in looks:
            got = script.parse_dump(out[i] or "")
            for a, v in want.items():
                if v is not None and got.get(a) != v:
                    last = [c for c in cmds[:i] if c.split()[0] not in ("dump", "pc", "step", "fill")][-6:]
                    raise Viol("map.%s" % (name if name in ("bits", "sfr") else "chip" if name[0] in "csx" and name != "xram" and name != "sw" else "space"),
                               "%s[0x%x] shows %s, must be 0x%x; commands before: %s" % (name, a, "nothing" if got.get(a) is None else hex(got[a]), v, " ; ".join(last)))
        ctx.mark("looks", len(looks))


PROP = P()
