"""C17: loading an image file stores exactly the data of its sound records, wherever the file comes from and however it is delivered."""
import random
import re
from ..core import Scn, Viol, crashcheck
from .. import script

# native code memories: sim -> (type, first usable address, one past the last, width, writable by fill)
NATIVE = {"s51": ("C52", 0, 0x10000, 8, 1), "z80": ("Z80", 0, 0x10000, 8, 1), "avr": (None, 0, 0x2000, 16, 1), "pblaze": ("KCPSM3", 0, 0x400, 18, 1),
          "f8": (None, 0x4000, 0x10000, 8, 0), "p1516": ("P1516", 0, 0xff00, 32, 1), "pdk": ("PDK14", 0, 0x800, 14, 1), "stm8": ("STM8S", 0x8000, 0x10000, 8, 0),
          "m68hc08": ("HC08", 0x8000, 0xf000, 8, 1)}
SIMS_ALL = sorted(NATIVE)
EXTS = [".p2h", ".asc", ".ihx", ".hex", ".ihex", ".s19", ".omf"]


def wbytes(w):
    return 1 if w <= 8 else 2 if w <= 16 else 3 if w <= 24 else 4


# ---- encoders ---------------------------------------------------------------------------------------------------
def ihx_rec(typ, addr, data):
    b = bytes([len(data), addr >> 8 & 0xff, addr & 0xff, typ]) + bytes(data)
    return ":" + (b + bytes([-sum(b) & 0xff])).hex()


def s19_rec(typ, addr, data):
    n = {1: 2, 2: 3, 3: 4}.get(typ, 2)
    b = bytes([n + len(data) + 1]) + addr.to_bytes(n, "big") + bytes(data)
    return "S%d" % typ + (b + bytes([~sum(b) & 0xff])).hex()


def omf_rec(typ, body):
    n = len(body) + 1
    b = bytes([typ, n & 255, n >> 8]) + bytes(body)
    return b + bytes([-sum(b) & 0xff])


def render(case):
    """-> (file bytes, [(unit byte address or word address, values, first byte in file, one past the last needed byte)])"""
    f, nl, up = case["fmt"], case["nl"].encode(), case["upper"]
    out, units = b"", []
    base = 0
    for r in case["recs"]:
        k = r["k"]
        a, d = r.get("a", 0), r.get("d", [])
        head = len(out)
        t, got = "", None
        if f == "ihx":
            if k == "junk":
                t = r["t"]
            elif k == "base":
                t = ihx_rec(4, 0, [a >> 8, a & 255])
            elif k == "seg":
                t = ihx_rec(2, 0, [a >> 8, a & 255])
            elif k == "other":
                t = ihx_rec(r["n"], 0, d)
            elif k == "end":
                t = ihx_rec(1, 0, [])
            else:
                t = ihx_rec(0, a, d)
                got = [(a, d)]
            if r.get("bad"):
                t = t[:-2] + "%02x" % ((int(t[-2:], 16) + r["bad"]) & 255)
                got = None
                if k in ("base", "seg", "end"):
                    k = "void"
            need = len(t)
            if up:
                t = t.upper()
            if k in ("base", "seg", "end"):
                got = [(k, a)]
        elif f == "s19":
            if k == "junk":
                t = r["t"]
            elif k == "other":
                t = s19_rec(r["n"], a & 0xffff, d)
            else:
                t = s19_rec(r["n"], a, d)
                got = [(a, d)]
            if r.get("bad"):
                t = t[:-2] + "%02x" % ((int(t[-2:], 16) + r["bad"]) & 255)
                got = None
            if r.get("cut"):
                t = t[:-2 * r["cut"]]
                got = None
            need = len(t)
            if up:
                t = "S" + t[1:].upper()
        elif f == "asc":
            t = r["t"] if k == "junk" else "".join("%x%s%s" % (v, " rest" if r.get("c") else "", case["nl"]) for v in d).rstrip("\r\n")
            need = 0
            got = None
        elif f == "p2h":
            if k == "junk":
                t = r["t"]
            else:
                ls = ["%08X //%s %06X" % (v, r.get("t", "C"), a + i) for i, v in enumerate(d)]
                t = case["nl"].join(ls)
            need = 0
        if f == "omf":
            if k == "data":
                b = omf_rec(6, [r.get("seg", 0), a & 255, a >> 8 & 255] + d)
                got = [(a, d)]
            else:
                b = omf_rec(r["n"], d)
            out += b
            units.append((len(out) - 1, got))
            continue
        tb = t.encode("latin1")
        out += tb + nl
        if f in ("ihx", "s19"):
            units.append((head + need, got))
    if f in ("ihx", "s19", "asc", "p2h") and not case["eofnl"]:
        out = out[:len(out) - len(nl)] if nl else out
    return out, units


def stores(case, data, units):
    """Reference loader: file content -> list of (word address, value) in order."""
    f, w = case["fmt"], case["w"]
    n = wbytes(w)
    st = []
    if f == "ihx":
        base = 0
        pend = {}
        for need, got in units:
            if need > len(data) or got is None:
                continue
            if got[0][0] == "base":
                base = got[0][1] << 16
            elif got[0][0] == "seg":
                base = got[0][1] << 4
            elif got[0][0] == "end":
                break
            else:
                for i, b in enumerate(got[0][1]):
                    st.append((base + got[0][0] + i, b))
        return words(st, n)
    if f == "s19":
        for need, got in units:
            if need > len(data) or got is None:
                continue
            for i, b in enumerate(got[0][1]):
                st.append((got[0][0] + i, b))
        return words(st, n)
    if f == "omf":
        return [(got[0][0] + i, b) for need, got in units if got and need < len(data) for i, b in enumerate(got[0][1])]
    if f == "asc":
        a = 0
        for ln in re.split(r"[\r\n]+", data.decode("latin1")):
            ln = ln.strip()
            m = re.match(r"([0-9a-fA-F]+)(?: |$)", ln)
            if m:
                st.append((a, int(m[1], 16)))
                a += 1
        return st
    for ln in re.split(r"[\r\n]+", data.decode("latin1")):
        t = ln.split()
        if len(t) >= 3 and t[1] in ("//C", "//I"):
            st.append((int(t[2], 16), int(t[0], 16)))
    return st


def words(st, n):
    """byte stores -> word stores: consecutive bytes of a word make one word, missing bytes are zero"""
    if n == 1:
        return st
    out, cur, lows = [], None, 0
    for a, b in st:
        if cur is not None and a // n != cur:
            out.append((cur, lows))
            cur, lows = None, 0
        cur = a // n
        lows = lows & ~(255 << 8 * (a % n)) | b << 8 * (a % n)
        if a % n == n - 1:
            out.append((cur, lows))
            cur, lows = None, 0
    if cur is not None:
        out.append((cur, lows))
    return out


class P:
    ID = "C17"
    RULE = ("Random images in Intel HEX (linear and segment bases, bad checksums, other record types, text between records, end record in the middle), S-record, OMF, asc and p2h format, loaded by file, "
            "command line, download and check into chips of 1 to 32 bits, address spaces, banked spaces and native code memories, with offsets and ranges; delivered in short and interrupted reads, torn at "
            "any byte, ended by read errors, with failing opens. All cells of the memory must equal those of a reference loader.")
    QUICK_S = 45
    QUICK_N = 4000
    THOROUGH_S = 900
    SIMS = sorted(NATIVE)

    def gen(self, rng, tier):
        sim = rng.choice(["s51"] * 4 + SIMS_ALL)
        where = rng.choice(["chip", "chip", "as", "bank", "rom", "rom"])
        typ, nlo, nsize, nw, wr = NATIVE[sim]
        c = dict(sim=sim, where=where)
        if where == "rom":
            c.update(size=nsize, w=nw, start=nlo)
        elif where == "chip":
            c.update(size=rng.choice([0x40, 0x100, 0x2a5, 0x400]), w=rng.choice([8, 8, 8, 4, 12, 16, 16, 18, 24, 32]), start=0)
        elif where == "as":
            c.update(size=rng.choice([0x80, 0x100, 0x300]), w=8, start=rng.choice([0, 0x10, 0x100]), off=rng.choice([0, 5, 0x20]))
        else:
            c.update(size=rng.choice([0x100, 0x200]), w=8, start=0, b0=rng.choice([0x40, 0x80]), mask=rng.choice([1, 3, 3, 7, 0xc]), sel=0)
        f = rng.choice(["ihx", "ihx", "ihx", "s19", "s19", "omf", "asc", "p2h"])
        if f == "omf" and c["w"] > 8:
            f = "ihx"
        c.update(fmt=f, nl=rng.choice(["\n", "\n", "\r\n"]), eofnl=rng.random() < .8, upper=rng.random() < .5)
        n = wbytes(c["w"])
        span = c["size"] + c["start"]
        if where == "bank":
            span = c["size"] * 9
        org = 0
        if where == "rom" and nsize >= 0x1000:
            org = rng.choice([nlo, nlo, nlo + 0x40, nsize - 0x180, rng.randrange(nlo, nsize - 0x200)])
            span = 0x180
            if org + span >= nsize - 0x20:
                span = nsize - org
        c["org"], c["span"] = org, span
        recs, base, seg = [], 0, 0
        vmax = (1 << c["w"]) - 1

        def data(k, addr):
            if n == 1:
                return [rng.randrange(vmax + 1) for _ in range(k)]
            # little endian words that fit
            out = []
            for i in range(k):
                p = (addr + i) % n
                hi = c["w"] - 8 * p
                out.append(0 if hi <= 0 else rng.randrange(1 << min(8, hi)))
            return out

        offset = 0
        if rng.random() < .4:
            offset = rng.choice([1, 5, 0x10, 0x33, -1, -4, -0x10])
        if f in ("ihx", "s19") and org and rng.random() < .3:
            offset += org
            org = 0
        cur = None
        for _ in range(rng.choice([1, 2, 4, 8, 12])):
            q = rng.random()
            if f in ("ihx", "s19", "omf"):
                k = rng.choice([1, 2, 3, 4, 7, 8, 16, 16, 32, rng.randrange(1, 60)])
                if cur is not None and rng.random() < .5:
                    a = cur
                else:
                    a = (org + rng.randrange(max(1, span + 8))) * n
                    if rng.random() < .6:
                        a -= a % n
                if f == "omf":
                    a &= 0xffff
                cur = a + k
                if f == "ihx":
                    b = (base << 16) + (seg << 4)
                    if a - b > 0xffff - 64 or a < b or rng.random() < .1:
                        seg = 0
                        if a < 0xf0000 and rng.random() < .4:
                            seg = (a >> 4) - rng.choice([0, 1, 0x123]) if a > 0x2000 else rng.choice([0, a >> 4])
                            seg &= 0xff00 if rng.random() < .3 else 0xffff
                            base = 0
                            recs.append(dict(k="seg", a=seg))
                        else:
                            base = a >> 16
                            if a & 0xffff > 0xffff - 64:
                                a -= 128
                                cur = a + k
                                base = a >> 16
                            recs.append(dict(k="base", a=base))
                        b = (base << 16) + (seg << 4)
                    r = dict(k="data", a=a - b, d=data(k, a))
                elif f == "s19":
                    r = dict(k="data", n=rng.choice([t for t in (1, 2, 3) if a + k <= 1 << (8 * t + 8)]), a=a, d=data(k, a))
                else:
                    r = dict(k="data", a=a, d=data(k, a), seg=rng.randrange(3))
                if f != "omf" and q < .1:
                    r["bad"] = rng.choice([1, 0x80, 0xff, rng.randrange(1, 256)])
                elif f == "s19" and q < .14:
                    r["cut"] = rng.choice([1, 2, 3])
                recs.append(r)
                if q > .9:
                    if f == "ihx":
                        recs.append(rng.choice([dict(k="junk", t=rng.choice(["", "; text", "S1 nothing", "\t"])), dict(k="other", n=rng.choice([3, 5]), d=[1, 2, 3, 4]), dict(k="other", n=9, d=[7, 7]),
                                                dict(k="end", bad=1)]))
                    elif f == "s19":
                        recs.append(rng.choice([dict(k="junk", t=rng.choice(["", "; text", ":00000001FF", "s1"])), dict(k="other", n=0, d=[0x41, 0x42]), dict(k="other", n=5, d=[]), dict(k="other", n=9, d=[])]))
                    else:
                        recs.append(dict(k="other", n=rng.choice([2, 4, 8, 0xe, 0x10, 0x16, 0x18]), d=[rng.randrange(256) for _ in range(rng.randrange(1, 12))]))
            elif f == "asc":
                recs.append(dict(k="junk", t=rng.choice(["; x", "", "//nothing"])) if q < .2 else dict(k="data", d=[rng.randrange(vmax + 1) for _ in range(rng.choice([1, 3, 9, 30]))], c=q > .8))
            else:
                recs.append(dict(k="junk", t=rng.choice(["//; x y z", "", "//H 1 2", "0012 //D 0003"])) if q < .2 else
                            dict(k="data", a=org + rng.randrange(max(1, span)), d=[rng.randrange(vmax + 1) for _ in range(rng.choice([1, 3, 9]))], t=rng.choice("CI")))
        if f == "ihx" and rng.random() < .7:
            recs.append(dict(k="end"))
            if rng.random() < .1:
                recs.append(dict(k="data", a=(org * n) & 0xff00, d=data(5, 0)))
        c["recs"] = recs
        c["offset"], c["hexoff"] = offset, rng.random() < .5
        if rng.random() < .3:
            lo = org + rng.randrange(max(1, span))
            c["range"] = [rng.choice([0, lo, lo]), rng.choice([lo + rng.randrange(60), lo, None])]
        how = rng.choice(["file", "file", "file", "cmdline", "check", "download", "noext", "noext"])
        if where == "rom" and not wr:
            how = "cmdline"
        if f == "ihx" and where == "rom" and wr and not offset and not c.get("range") and rng.random() < .3:
            how = "download"
        if how == "download" and (f != "ihx" or where != "rom" or offset or c.get("range")):
            how = "file"
        if how == "cmdline" and where != "rom":
            how = "noext"
        if how == "check" and where == "bank":
            how = "file"
        c["how"] = how
        c["ext"] = {"ihx": rng.choice([".ihx", ".hex", ".ihex"]), "s19": ".s19", "omf": ".omf", "asc": ".asc", "p2h": ".p2h"}[f]
        c["rseed"] = rng.randrange(1 << 30)
        fl = []
        if how != "download":
            for _ in range(rng.choice([0, 0, 1, 3])):
                fl.append(rng.choice([["short", rng.choice([1, 2, 3, 7, 50])], ["err", 4], ["err", 4]]))
            q = rng.random()
            if q < .25:
                c["tear"] = rng.random()
            elif q < .35 and how != "check":
                c["eio"] = rng.random()
            if how == "noext" and rng.random() < .4:
                c["decoy"] = rng.choice(["before", "after", "fail"])
        c["faults"] = fl
        c["pipe"] = rng.random() < .5
        c["fill"] = rng.randrange(1 << c["w"])
        c["_lists"] = ["recs", "faults"]
        return c

    def trivial(self, case):
        return not case["recs"]

    # ---- the memory the image goes to ------------------------------------------------------------------------------
    def target(self, c):
        """-> (memory name, setup commands, windows [(memory, first, last, prefill)], address -> cell)"""
        size, start, where, fillv = c["size"], c["start"], c["where"], c["fill"]
        if where == "rom":
            a0, a1 = max(start, c["org"] - 0x80), min(size - 1, c["org"] + c["span"] + 0x80)
            wins = [("rom", a0, a1, fillv)] + [("rom", x, x + 31, fillv) for x in (0, 0x100, 0x8000, size // 2) if start <= x and x + 32 <= size]
            return "rom", [], wins, lambda a: ("rom", a) if start <= a < size else None
        if where == "chip":
            return "cc", ["memory create chip cc 0x%x %d" % (size, c["w"])], [("cc", 0, size - 1, fillv)], lambda a: ("cc", a) if 0 <= a < size else None
        if where == "as":
            n, off = size + c["off"] + 8, c["off"]
            return ("aa", ["memory create chip cc 0x%x 8" % n, "memory create as aa 0x%x 0x%x" % (start, size), "memory create addressdecoder aa 0x%x 0x%x cc 0x%x" % (start, start + size - 1, off)],
                    [("cc", 0, n - 1, fillv)], lambda a: ("cc", a - start + off) if start <= a < start + size else None)
        nb, b0 = {1: 2, 3: 4, 7: 8, 0xc: 4}[c["mask"]], c["b0"]
        cmds = ["memory create chip sc 2 8", "memory create as sw 0 2", "memory create addressdecoder sw 0 1 sc 0", "memory create chip cc 0x%x 8" % size, "memory create as aa 0 0x%x" % size,
                "memory create addressdecoder aa 0 0x%x cc 0" % (b0 - 1), "memory create banker sw 1 %d aa 0x%x 0x%x" % (c["mask"], b0, size - 1)]
        for b in range(nb):
            cmds += ["memory create chip k%d 0x%x 8" % (b, size), "memory create bank aa 0x%x %d k%d 0" % (b0, b, b)]
        wins = [("sc", 0, 1, 0), ("cc", 0, size - 1, fillv)] + [("k%d" % b, 0, size - 1, fillv) for b in range(nb)]

        def cell(a):
            if 0 <= a < b0:
                return "cc", a
            if b0 <= a < size:
                return "k0", a - b0
            b, ca = divmod(a, size)
            return ("k%d" % b, ca - b0) if a >= 0 and ca >= b0 and b < nb else None
        return "aa", cmds, wins, cell

    def piped(self, case, ctx, cmds):
        """the same commands (and the image) typed on a slow console, in pieces"""
        sim = case["sim"]
        s = Scn(sim, ["-q", "-P", "-b"] + (["-t", NATIVE[sim][0]] if NATIVE[sim][0] else []))
        s.raw("limit 6000000").ep("stdin", "pipe")
        rr = random.Random(case["rseed"])
        txt = ""
        for i, c in enumerate(cmds + ["kill"]):
            txt += "expr %d+1000000\n%s\n" % (7000001 + i, c.rstrip("\n"))
        i = 0
        while i < len(txt):
            n = rr.choice([1, 3, 20, 99, 100, 101, 500, 4000])
            s.data("stdin", txt[i:i + n])
            i += n
            q = rr.random()
            if q < .25:
                s.polls("stdin", rr.randrange(1, 4))
            elif q < .3:
                s.short("stdin", rr.randrange(1, 9))
            elif q < .33:
                s.err("stdin", 4)
                ctx.mark("fault.eintr")
        ctx.mark("how.typed-download")
        r = ctx.run(s)
        crashcheck(r)
        out = []
        for i in range(len(cmds)):
            # what is typed is echoed between the outputs
            m = re.search(r"(?s)%d\s(.*?)%d\s" % (8000001 + i, 8000002 + i), r.text)
            out.append(re.sub(r"0x(?=[0-9a-f]+ )", "\n0x", m[1]) if m else None)
        return r, out

    def check(self, case, ctx):
        sim, how, w, fillv = case["sim"], case["how"], case["w"], case["fill"]
        data, units = render(case)
        if case.get("tear") is not None:
            data = data[:int(case["tear"] * (len(data) + 1))]
            ctx.mark("fault.torn-file")
        if how == "download":
            t = data.decode("latin1").replace("\r", "")
            if not t.endswith("\n"):
                t += "\n"
            if not any(r["k"] == "end" and not r.get("bad") for r in case["recs"]):
                t += ":00000001FF\n"
        for k in ("format.%s" % case["fmt"], "target.%s.%d" % (case["where"], w), "how." + how):
            ctx.mark(k)
        lo, hi = case.get("range") or [0, None]
        hi = 0xffffffff if hi is None else hi
        offset = case["offset"]
        mem, setup, wins, cellof = self.target(case)

        def sequence(seen):
            seq = []
            for a, v in stores(case, seen, units):
                k = cellof(a + offset) if lo <= a <= hi else None
                if k is not None:
                    seq.append((k, a + offset, v))
            return seq
        model = {(m, z): v for m, x, y, v in wins for z in range(x, y + 1)}
        spec = "@" + mem if mem != "rom" else ""
        if offset:
            spec += ":" + (("-" if offset < 0 else "") + "0x%x" % abs(offset) if case["hexoff"] else "%d" % offset)
        if case.get("range"):
            spec += "#" + ("0x%x" % lo if case["hexoff"] else "%d" % lo) + ("" if case["range"][1] is None else ("-0x%x" if case["hexoff"] else "-%d") % hi)
        fname = "img" + case["ext"]
        cmds = list(setup) + ["fill %s 0x%x 0x%x %d" % (m, x, y, v) for m, x, y, v in wins if how != "cmdline"]
        args, diffs = [], []
        if case["where"] == "bank":
            cmds.append("set memory sw 1 0")
        if how == "check":
            rr = random.Random(case["rseed"])
            cur = dict(model)
            for k, a, v in sequence(data):
                if rr.random() < .9 and k in cur:
                    cur[k] = v
            for (m, z), v in [kv for kv in cur.items() if kv[1] != model[kv[0]]]:
                cmds.append("set memory %s 0x%x %d" % (m, z, v))
            model = cur
            diffs = [(a, v, model[k]) for k, a, v in sequence(data) if k in model and model[k] != v]
            cmds.append('check "%s%s"' % (fname, spec))
        elif how == "download":
            cmds.append("download\n" + t)
        elif how == "cmdline":
            args = [fname + spec]
        else:
            cmds.append('file "%s%s"' % ("img" if how == "noext" else fname, spec))
        iload = len(cmds) - 1
        cmds.append("expr 1234567+1")
        cmds += ["dump /h %s 0x%x 0x%x" % (m, x, y) for m, x, y, v in wins]
        decoy = case.get("decoy") if how == "noext" else None

        def extra(s):
            if how == "download":
                return
            s.file(fname, data)
            for i, (k, n) in enumerate(case["faults"]):
                s.rfault(fname, 1 + 2 * i + (case["rseed"] >> i & 1), k, n)
            if case.get("eio") is not None:
                s.rfault(fname, 2 * len(case["faults"]) + 1 + int(case["eio"] * (1 + len(data) // 99)), "err", 5)
            e = EXTS.index(case["ext"])
            dec = (ihx_rec(0, case["org"] * wbytes(w) & 0xffff, [0x77] * 12) + "\n:00000001FF\n").encode()
            if decoy == "fail" and e > 0:
                s.file("img" + EXTS[e - 1], dec).raw("openfail img%s %d" % (EXTS[e - 1], 13))
            if decoy == "after" and e < len(EXTS) - 1:
                s.file("img" + EXTS[e + 1], dec)
        if case.get("pipe") and how == "download":
            r, out = self.piped(case, ctx, cmds)
        else:
            r, out = script.run(ctx, sim, NATIVE[sim][0], cmds, args=args, extra=extra, limit=6000000)
        seen = data
        if how != "download":
            for k, n in case["faults"]:
                ctx.mark("fault." + ("eintr" if k == "err" else "short-read"))
            if r.faults.get("read_error"):
                seen = data[:r.eps[fname].nread]
                ctx.mark("fault.read-error")
        if how != "check":
            # what a command line image leaves behind must be seen only where it stores
            seq = sequence(seen)
            if how == "cmdline":
                model = {}
            for k, a, v in seq:
                if k in model or how == "cmdline":
                    model[k] = v & ((1 << w) - 1)
            ctx.mark("cells.loaded", len(seq))
        # the commands after it still run
        if out[iload + 1] is None or "1234568" not in out[iload + 1]:
            raise Viol("after." + how, "after loading (%s, %s) the next command was not executed: %r" % (case["fmt"], how, (out[iload + 1] or "")[:200]))
        for (m, x, y, v), o in zip(wins, out[iload + 2:]):
            got = script.parse_dump(o or "")
            for z in range(x, y + 1):
                if (m, z) not in model:
                    continue
                if got.get(z) != model[(m, z)]:
                    raise Viol("cell.%s.%s" % (case["fmt"], how if how in ("check", "download", "cmdline") else "file"),
                               "%s image (%s, %d bit cells, spec %r): %s[0x%x] is %s, must be 0x%x (fill 0x%x)" % (case["fmt"], how, w, spec, m, z, "missing" if got.get(z) is None else hex(got[z]), model[(m, z)], v))
        if how == "check":
            got = [tuple(int(x, 16) for x in g) for g in re.findall(r"Diff at ([0-9a-f]{8}), FILE=([0-9a-f]{8}) MEM=([0-9a-f]{8})", out[iload] or "")]
            # only cells inside the windows have a known value
            known = {a for k, a, v in sequence(data) if k in model}
            got = [g for g in got if g[0] in known]
            if got != [(a & 0xffffffff, v, m) for a, v, m in diffs]:
                raise Viol("check.%s" % case["fmt"], "check of a %s image reports %r, the differences are %r" % (case["fmt"], [tuple(map(hex, g)) for g in got[:4]], [tuple(map(hex, g)) for g in diffs[:4]]))
            ctx.mark("diffs.reported", len(diffs))


PROP = P()
