"""C16: a replayed VCD file makes each change at its simulated time, neither earlier nor later than the instruction boundary behind it."""
import re
from ..core import Viol
from .. import script, sims
from .c15 import UNIT, MACH

NOP = {"s51": 0, "z80": 0, "mos6502": 0xea, "stm8": 0x9d}
# instructions of different length in time, which leave the memory alone
WAIT = {"s51": [[0], [0xa4], [0x84], [0x74, 5], [0x90, 1, 2], [0xe0]], "z80": [[0], [0x3c], [0x3a, 0, 1], [0x21, 1, 2], [0xdd, 0x21, 3, 4]],
        "mos6502": [[0xea], [0xa9, 1], [0xad, 0, 1], [0xbd, 0xff, 0], [0xe8]], "stm8": [[0x9d], [0xa6, 1], [0x42], [0x62], [0x5c]]}
TYPES = ["$timescale 1ns $end", "$timescale\n\t1 ns\n$end", "$timescale 10us $end", "$timescale 1us $end", "$timescale 100 ns $end", "$timescale 1 ps $end", "$timescale 10 ns\n$end"]


class P:
    ID = "C16"
    RULE = ("Random VCD files (units, bit fields, short and unknown vectors, comments, dump blocks, equal times) replayed into four machines by one or two inputs under random clocks, steps, pauses, restarts, "
            "start time shifts, stops and console writes; after every step all locations must hold what the events before the present simulated time make of them. Also torn files, read errors and short reads.")
    QUICK_S = 40
    QUICK_N = 2500
    THOROUGH_S = 900
    SIMS = sorted(MACH)

    def gen(self, rng, tier):
        sim = rng.choice(["s51", "s51", "z80", "mos6502", "stm8"])
        typ, base, areas = MACH[sim]
        areas = [a for a in areas if a[0] != "sfr"]
        locs = []
        for _ in range(rng.choice([1, 2, 3, 5])):
            sp, lo, hi = rng.choice(areas)
            l = [sp, rng.randrange(lo, hi + 1)]
            if l not in locs:
                locs.append(l)
        xt = rng.choice([None, "1M", "12M", "32768", "3579545", "20M"])
        per = {None: 1e-6, "1M": 1e-5, "12M": 1e-6, "32768": 3e-4, "3579545": 3e-6, "20M": 6e-7}[xt]
        per *= {"s51": 1.2, "z80": .5, "mos6502": .4, "stm8": .15}[sim]
        ins = [rng.choice(WAIT[sim]) for _ in range(160)]
        vcds = []
        nin = rng.choice([1, 1, 2]) if len(locs) > 1 else 1
        for k in range(nin):
            vs, ids = [], []
            for _ in range(rng.choice([1, 2, 3, 6])):
                l = rng.choice(range(k, len(locs), nin))    # two inputs never drive the same location
                if rng.random() < .5:
                    h, lo = 7, 0
                else:
                    h = rng.randrange(8)
                    lo = rng.choice([h, h, rng.randrange(h + 1)])
                i = rng.choice("!\"#$%&01bxBzA.rR") if rng.random() < .5 else chr(rng.randrange(33, 127))
                if i in ids or any((x["loc"], x["h"], x["l"]) == (l, h, lo) for x in vs):
                    continue
                ids.append(i)
                vs.append(dict(loc=l, h=h, l=lo, id=i, form=rng.choice(["arr", "arr", "name", "range"])))
            ts = rng.choice(TYPES)
            u = re.search(r"(\d+)\s*([a-z]+)", ts)
            unit = int(u[1]) * UNIT[u[2]]
            ev, t = [], rng.choice([0, 0, rng.random() * 20])
            for _ in range(rng.choice([2, 6, 15, 40])):
                chs = []
                for _ in range(rng.choice([0, 1, 1, 2, 3])):
                    v = rng.randrange(len(vs))
                    w = vs[v]["h"] - vs[v]["l"] + 1
                    val = rng.choice([rng.randrange(1 << w), (1 << w) - 1, 0])
                    st = rng.choice(["full", "full", "full", "short", "x", "upper", "wide"])
                    if st == "x":
                        s = "".join(rng.choice("01xz") for _ in range(w))
                    elif st == "short":
                        s = bin(val)[2:]
                    elif st == "wide":
                        s = "0" * rng.randrange(1, 5) + bin(val)[2:].zfill(w)
                    else:
                        s = bin(val)[2:].zfill(w)
                    chs.append([v, s, "B" if st == "upper" else "b"])
                ev.append([int(t * per / unit), chs, rng.choice(["", "", "", "", "$comment 1%s #3 b1 %s $end" % (vs[0]["id"], vs[0]["id"]), "$comment paused $end", "$dumpvars"])])
                t += rng.choice([0, .3, 1, 2, 5, 9])
            sep = rng.choice(["\n", "\n", "\r\n", " "])
            vcds.append(dict(vars=vs, ts=ts, unit=unit, ev=ev, sep=sep, pre=rng.choice(["", "$comment take #5 or 1! $end", "$date\n\tMon #1\n$end"]), scope=rng.choice(["top", "s1"])))
        ops, total = [], 0
        up = [False] * len(vcds)
        for _ in range(rng.choice([4, 10, 20])):
            k = rng.randrange(len(vcds))
            q = rng.random()
            if not up[k] and q < .6:
                ops.append(["vcd", k, "start"])
                up[k] = True
            elif q < .65:
                n = min(rng.choice([1, 2, 5, 20, 50]), 140 - total)
                if n > 0:
                    ops.append(["step", n])
                    total += n
            elif q < .78:
                ops.append(["vcd", k, rng.choice(["pause", "restart", "pause"])])
            elif q < .86:
                ops.append(["set", rng.randrange(len(locs)), rng.randrange(256)])
            elif q < .95:
                n = rng.choice([0.5, 1, 3, 10]) * per
                un = rng.choice([x for x in ("us", "ns", "ps") if n / UNIT[x] >= 1] or ["ps"])
                ops.append(["shift", k, max(1, int(n / UNIT[un])), un])
            else:
                ops.append(["vcd", k, "stop"])
                up[k] = False
        return dict(sim=sim, locs=locs, xtal=xt, ins=ins, vcds=vcds, ops=ops, cut=rng.random() < .5, pert=rng.randrange(256),
                    tear=rng.random() if rng.random() < .25 else None, eio=rng.random() if rng.random() < .15 else None, short=[rng.choice([1, 2, 3, 7, 50]) for _ in range(rng.choice([0, 0, 2, 6]))],
                    brk=rng.random() < .2, _lists=["ops", "short"])

    def shrink(self, case):
        for k, v in enumerate(case["vcds"]):
            for i in range(len(v["ev"])):
                yield dict(case, vcds=case["vcds"][:k] + [dict(v, ev=v["ev"][:i] + v["ev"][i + 1:])] + case["vcds"][k + 1:])
            for i, e in enumerate(v["ev"]):
                if e[2]:
                    yield dict(case, vcds=case["vcds"][:k] + [dict(v, ev=v["ev"][:i] + [[e[0], e[1], ""]] + v["ev"][i + 1:])] + case["vcds"][k + 1:])
        for k in ("tear", "eio"):
            if case[k] is not None:
                yield dict(case, **{k: None})

    def trivial(self, case):
        return not any(o[0] == "vcd" for o in case["ops"])

    def name(self, case, k, i):
        v = case["vcds"][k]["vars"][i]
        sp, a = case["locs"][v["loc"]]
        if v["form"] == "name":
            return "nm_%d_%d" % (k, i)
        n = "%s[0x%x]" % (sp, a)
        if (v["h"], v["l"]) == (7, 0):
            return n
        # the width comes from the file, the name tells the lowest bit
        return n + ".%d" % v["l"] if v["form"] == "arr" or v["h"] == v["l"] else n + "[%d:%d]" % (v["h"], v["l"])

    def filedata(self, case, k):
        """-> (bytes, [(time, [(var, bits)], first byte, [end of each change])], end of the header's first time)"""
        v = case["vcds"][k]
        sep = v["sep"]
        o = "$version uCsim test $end\n" + (v["pre"] + "\n" if v["pre"] else "") + v["ts"] + "\n$scope module %s $end\n" % v["scope"]
        for i, x in enumerate(v["vars"]):
            o += "$var wire %d %s %s $end\n" % (x["h"] - x["l"] + 1, x["id"], self.name(case, k, i))
        o += "$upscope $end\n$enddefinitions $end\n"
        ev = []
        for t, chs, pre in v["ev"]:
            o += "#%d" % t
            te = len(o) + 1
            o += sep
            if pre.startswith("$comment"):
                o += pre + sep
            elif pre:
                o += pre + sep
            l = []
            for i, bits, b in chs:
                x = v["vars"][i]
                if x["h"] == x["l"] and len(bits) == 1:
                    o += bits + x["id"]
                else:
                    o += b + bits + " " + x["id"]
                l.append((i, bits, len(o) + 1))
                o += sep
            if pre == "$dumpvars":
                o += "$end" + sep
            ev.append((t * v["unit"], l, te))
        return o.encode(), ev

    def cmds(self, case, fine, brk=False):
        c, tag = [], []

        def put(x, t=None):
            c.append(x)
            tag.append(t)

        def obs(i, j):
            put("state", ("state", i, j))
            for l, (sp, a) in enumerate(case["locs"]):
                put("expr %s[0x%x]" % (sp, a), ("val", i, j, l))
        for k, v in enumerate(case["vcds"]):
            for i, x in enumerate(v["vars"]):
                if x["form"] == "name":
                    sp, a = case["locs"][x["loc"]]
                    put("var nm_%d_%d %s[0x%x]%s" % (k, i, sp, a, "" if (x["h"], x["l"]) == (7, 0) else ".%d" % x["h"] if x["h"] == x["l"] else "[%d:%d]" % (x["h"], x["l"])))
        for k, v in enumerate(case["vcds"]):
            if k:
                put("set hw vcd[0] new %d" % k)
            put('set hw vcd[%d] input "i%d.vcd"' % (k, k))
            if brk:
                put("set hw vcd[%d] break" % k)
        put("pc 0x%x" % MACH[case["sim"]][1])
        for sp, a in case["locs"]:
            put("%s[0x%x]=0x3c" % (sp, a))
        obs(-1, 0)
        for i, o in enumerate(case["ops"]):
            if o[0] == "step":
                if fine:
                    for j in range(o[1]):
                        put("step 1")
                        obs(i, j)
                else:
                    put("step %d" % o[1])
                    obs(i, o[1] - 1)
            elif o[0] == "set":
                sp, a = case["locs"][o[1]]
                put("%s[0x%x]=0x%x" % (sp, a, o[2]))
            elif o[0] == "shift":
                put("set hw vcd[%d] starttime %d %s" % (o[1], o[2], o[3]))
            else:
                put("set hw vcd[%d] %s" % (o[1], o[2]), ("msg", i, o[2]))
        put("expr 1234567+1", ("fin",))
        return c, tag

    def check(self, case, ctx):
        base = MACH[case["sim"]][1]
        code = [b for x in case["ins"] for b in x] + [NOP[case["sim"]]] * 200
        data, evs, limit = [], [], []
        for k in range(len(case["vcds"])):
            d, e = self.filedata(case, k)
            data.append(d)
            evs.append(e)
        cut = len(data[0])
        if case["tear"] is not None:
            cut = int(case["tear"] * len(data[0]))
            data[0] = data[0][:cut]
            ctx.mark("torn")
        fault = case["eio"] is not None and case["tear"] is None

        def ex(s):
            for k, d in enumerate(data):
                s.file("i%d.vcd" % k, d)
            for n in case["short"]:
                s.rfault("i0.vcd", 1 + n % 4, "short", n)
            if fault:
                s.rfault("i0.vcd", 1 + int(case["eio"] * 3), "err", 5)
        res = []
        for fine in ([True, False] if case["cut"] else [True]):
            cm, tag = self.cmds(case, fine)
            r, o = script.run(ctx, case["sim"], MACH[case["sim"]][0], cm, ["p.ihx"] + (["-X", case["xtal"]] if case["xtal"] else []), [("p.ihx", sims.ihex(code, base))], perturb=case["pert"], extra=ex)
            if not o or o[-1] is None or "1234568" not in o[-1]:
                raise Viol("lost", "the console does not answer after the replay")
            obs = {}
            for t, x in zip(tag, o):
                if x is None:
                    raise Viol("lost", "a command gave no output")
                if t and t[0] == "state":
                    obs[t[1], t[2]] = [script.counters(x)["total"] / int(re.search(r"frequency= (\d+) HZ", x)[1]), {}]
                elif t and t[0] == "val":
                    obs[t[1], t[2]][1][t[3]] = int(x.split()[0]) & 0xff
            res.append((obs, r.eps["i0.vcd"].nread if "i0.vcd" in r.eps else 0))
            self.model(case, obs, evs, cut, fault, ctx, fine)
        if case["brk"] and not fault:
            self.breaks(case, ctx, ex, res[0][0], code, base)
        if len(res) == 2:
            for key, v in res[1][0].items():
                if key in res[0][0] and res[0][0][key] != v:
                    raise Viol("cut", "after op %d single stepping and running differ: %s / %s" % (key[0], res[0][0][key], v))

    def breaks(self, case, ctx, ex, obs, code, base):
        """With break enabled, a run stops at the instruction boundary behind the first replayed change."""
        cm, tag = self.cmds(case, False, True)
        r, o = script.run(ctx, case["sim"], MACH[case["sim"]][0], cm, ["p.ihx"] + (["-X", case["xtal"]] if case["xtal"] else []), [("p.ihx", sims.ihex(code, base))], perturb=case["pert"], extra=ex)
        if not o or o[-1] is None or "1234568" not in o[-1]:
            raise Viol("lost", "the console does not answer after the replay")
        for n, (t, x) in enumerate(zip(tag, o)):
            if not t or t[0] != "state" or t[1] < 0:
                continue
            i, last = t[1], t[2]
            got = script.counters(x)["total"] / int(re.search(r"frequency= (\d+) HZ", x)[1])
            may = [j for j in range(last + 1) if self.applied[i, j][1]]
            if not may:
                if got != obs[i, last][0]:
                    raise Viol("break", "op %d: the run stopped at %.12g without any change (should go to %.12g)" % (i, got, obs[i, last][0]))
                continue
            j = may[0]
            if self.applied[i, j][0] and j < last:
                ctx.mark("break")
                if got != obs[i, j][0]:
                    raise Viol("break", "op %d: the change is made at %.12g, the run stopped at %.12g" % (i, obs[i, j][0], got))
                if "(104)" not in o[n - 1]:
                    raise Viol("breakmsg", "op %d: stop at a replayed change is told as %r" % (i, o[n - 1][:80]))
            return

    def model(self, case, obs, evs, cut, fault, ctx, fine):
        """Follow the replay with a set of possible (position per input, values): events exactly at a boundary may be on either side."""
        if fine:
            self.applied = {}
        nv = len(case["vcds"])
        T = obs[-1, 0][0]
        st = [dict(run=False, paused=False, S=0.0, started=False, pend=0.0, ev=[], at=0.0) for _ in range(nv)]
        # possible worlds: (tuple of positions, tuple of values)
        worlds = {(tuple([0] * nv), tuple(obs[-1, 0][1][l] for l in range(len(case["locs"]))))}

        def apply(vals, k, ch):
            v = case["vcds"][k]["vars"][ch[0]]
            w = v["h"] - v["l"] + 1
            bits = ch[1]
            if len(bits) < w:
                bits = ("0" if bits[0] in "01" else "x") * (w - len(bits)) + bits
            bits = bits[-w:]
            x = vals[v["loc"]]
            for n, b in enumerate(reversed(bits)):
                m = 1 << (v["l"] + n)
                if b == "1":
                    x |= m
                elif b == "0":
                    x &= ~m
            o = list(vals)
            o[v["loc"]] = x
            return tuple(o)

        def usable(k):
            """events of the file that can be used (torn files: complete tokens only)"""
            out = []
            for t, chs, te in evs[k]:
                if k == 0 and te > cut:
                    break
                out.append((t, [(i, b) for i, b, e in chs if k or e <= cut]))
            return out

        for i, o in enumerate(case["ops"]):
            if o[0] == "step":
                for j in range(o[1]):
                    if (i, j) not in obs:
                        continue
                    T2, vals = obs[i, j]
                    want = tuple(vals[l] for l in range(len(case["locs"])))
                    new = set()
                    old = worlds
                    eps = 1e-9 * T2 + 1e-13
                    for pos, v in worlds:
                        self.reach(case, st, 0, list(pos), v, T2, eps, apply, new, fault)
                    got = {w for w in new if w[1] == want}
                    if not got:
                        ex = sorted({w[1] for w in new})[:3]
                        nxt = [(k, [(round(s["S"] + e[0], 9), e[1]) for e in s["ev"]][:6]) for k, s in enumerate(st) if s["run"]]
                        raise Viol("values", "op %d step %d, time %.12g: locations hold %s, events before that make them %s (start %s, events %s)" % (
                            i, j, T2, want, ex, [s["S"] for s in st], str(nxt)[:400]))
                    if fine:
                        n = [self.count(st, p, q) for q, _ in got for p, _ in old]
                        # a change of unknown bits only may count as one or not
                        self.applied[i, j] = (min(x[0] for x in n) > 0, max(x[1] for x in n) > 0)
                    if got != worlds:
                        ctx.mark("applied")
                    worlds = got
                    T = T2
            elif o[0] == "set":
                worlds = {(p, v[:o[1]] + (o[2],) + v[o[1] + 1:]) for p, v in worlds}
            elif o[0] == "shift":
                s = st[o[1]]
                s["S"] += o[2] * UNIT[o[3]]
                ctx.mark("shift")
            else:
                s = st[o[1]]
                k = o[1]
                if o[2] == "stop":
                    s.update(started=False, run=False, paused=False, S=0.0 if s["started"] else s["S"])
                elif not s["started"]:
                    if o[2] in ("start", "restart"):
                        s.update(started=True, run=True, paused=False, S=s["S"] + T, ev=usable(k))
                        worlds = {(p[:k] + (0,) + p[k + 1:], v) for p, v in worlds}
                        ctx.mark("start")
                elif s["paused"]:
                    s.update(paused=False, run=True, S=s["S"] + T)
                elif o[2] == "pause":
                    s.update(paused=True, run=False, S=s["S"] - T)
                    ctx.mark("pause")

    def count(self, st, p, q):
        ch = [c for k, s in enumerate(st) for _, l in s["ev"][p[k]:q[k]] for c in l]
        return sum(1 for c in ch if "0" in c[1] or "1" in c[1]), len(ch)

    def reach(self, case, st, k, pos, v, T, eps, apply, out, fault):
        """all worlds in which input k.. have applied what they must (and possibly what they may) by time T"""
        if k == len(st):
            out.add((tuple(pos), v))
            return
        s = st[k]
        p = pos[k]
        if s["run"] and p >= 0:
            if fault and k == 0:
                # a failing read may end the replay at any point
                q = list(pos)
                q[k] = -1
                self.reach(case, st, k + 1, q, v, T, eps, apply, out, fault)
            while p < len(s["ev"]):
                e = s["S"] + s["ev"][p][0]
                if e > T + eps:
                    break
                if e >= T - eps:
                    q = list(pos)
                    q[k] = p
                    self.reach(case, st, k + 1, q, v, T, eps, apply, out, fault)
                for n, ch in enumerate(s["ev"][p][1]):
                    v = apply(v, k, ch)
                    if fault and k == 0:
                        q = list(pos)
                        q[k] = -1
                        self.reach(case, st, k + 1, q, v, T, eps, apply, out, fault)
                p += 1
        q = list(pos)
        q[k] = p
        self.reach(case, st, k + 1, q, v, T, eps, apply, out, fault)


PROP = P()
