"""C15: a VCD log holds exactly what happened to the logged locations, at the simulated times when it happened."""
import re
from ..core import Viol, crashcheck
from .. import script, sims

UNIT = {"ms": 1e-3, "us": 1e-6, "ns": 1e-9, "ps": 1e-12, "fs": 1e-15}
# sim -> (type, code base, [(space, low, high)])
MACH = {"s51": ("C52", 0, [("iram", 0x20, 0x2f), ("iram", 0x30, 0x6f), ("sfr", 0xf0, 0xf0), ("sfr", 0xe0, 0xe0), ("xram", 0, 0xff), ("xram", 0x1230, 0x1240)]),
        "z80": ("Z80", 0x100, [("rom", 0x8000, 0x8040), ("rom", 0xff00, 0xfffe)]),
        "mos6502": ("6502", 0x400, [("rom", 0x10, 0x40), ("rom", 0x2000, 0x2040)]),
        "stm8": ("STM8S", 0x8000, [("rom", 0x10, 0x40), ("rom", 0x300, 0x340)])}


def ins(sim, rng, locs):
    sp, a = rng.choice(locs)
    d = rng.choice([rng.randrange(256), 0, 0xff, 1])
    lo, hi = a & 255, a >> 8
    q = rng.random()
    if q < .3:
        return {"s51": rng.choice([[0], [0xa4], [0x74, d], [0x84]]), "z80": rng.choice([[0], [0x21, lo, hi], [0x3c], [0xe3]][:3]), "mos6502": rng.choice([[0xea], [0xa9, d], [0xe8]]),
                "stm8": rng.choice([[0x9d], [0xa6, d], [0x4c]])}[sim]
    if sim == "s51":
        if sp == "xram":
            return rng.choice([[0x90, hi, lo, 0x74, d, 0xf0], [0x90, hi, lo, 0x74, d, 0xf0, 0x04, 0xf0], [0x90, hi, lo, 0xe0, 0x04, 0xf0]])
        o = [[0x75, a, d], [0x05, a], [0x15, a], [0x63, a, d], [0x78, a, 0x76, d], [0xc5, a], [0x43, a, d], [0x53, a, d], [0x78, a, 0x06], [0xd5, a, 0], [0xf5, a]]
        if sp == "sfr":
            # bits of the byte; (bit operations on iram 20h-2fh go through the cells of another address space)
            b = a + rng.randrange(8)
            o = [x for x in o if x[0] != 0x78] + [[0xa4], [0x84], [0x04], [0x24, d], [0xc5, 0xf0], [0x23]]
            o += [[0xd2, b], [0xc2, b], [0xb2, b], [0x10, b, 0], [0x92, b]]
        return rng.choice(o)
    if sim == "z80":
        return rng.choice([[0x21, lo, hi, 0x36, d], [0x21, lo, hi, 0x34], [0x21, lo, hi, 0x35], [0x3e, d, 0x32, lo, hi], [0x21, d, 7, 0x22, lo, hi], [0x21, lo, hi, 0xcb, 0xc6 | (d & 0x38)],
                           [0x21, lo, hi, 0xcb, 0x16], [0xdd, 0x21, lo, hi, 0xdd, 0x34, 0]])
    if sim == "mos6502":
        return rng.choice([[0xa9, d, 0x8d, lo, hi], [0xee, lo, hi], [0xce, lo, hi], [0x2e, lo, hi], [0xa2, d, 0x8e, lo, hi]] + ([[0xe6, lo], [0x85, lo], [0xc6, lo]] if not hi else []))
    return rng.choice([[0x35, d, hi, lo], [0xa6, d, 0xc7, hi, lo], [0x72, 0x5c, hi, lo], [0x72, 0x5a, hi, lo], [0x72, 0x10 | (d & 15), hi, lo], [0x90, 0x10 | (d & 15), hi, lo], [0x72, 0x5f, hi, lo]] +
                      ([[0x3c, lo], [0x3a, lo], [0x3f, lo], [0x33, lo]] if not hi else []))


def fieldname(v, case):
    """name by which the header has to know the variable"""
    sp, a = case["locs"][v["loc"]]
    exact, whole = [], [n for n in [{("sfr", 0xe0): "ACC", ("sfr", 0xf0): "B"}.get((sp, a))] if n]
    for n, l, h, lo in case["names"]:
        if l == v["loc"]:
            if (h, lo) == (v["h"], v["l"]):
                exact.append(n)
            if (h, lo) == (7, 0):
                whole.append(n)
    sfx = "" if (v["h"], v["l"]) == (7, 0) else ".%d" % v["l"] if v["h"] == v["l"] else "[%d:%d]" % (v["h"], v["l"])
    exact += [n + sfx for n in whole]
    return "|".join(re.escape(n) for n in exact) if exact else "%s_0x0*%x" % (sp, a) + re.escape(sfx)


def parse(text):
    """-> (unit, [(id, width, name)], [records]); records: (kind, time, id, value); None stands for x"""
    m = re.search(r"\$timescale\s+(\S+?)\s*([a-z]*s)\s+\$end", text)
    if not m or m[2] not in UNIT or not m[1].isdigit() or int(m[1]) == 0:
        raise Viol("header-timescale", "no usable $timescale: %r" % text[:200])
    unit = int(m[1]) * UNIT[m[2]]
    i = text.find("$enddefinitions $end\n")
    if i < 0:
        raise Viol("header-end", "header does not end")
    var = re.findall(r"\$var wire (\d+) (\S+) (.*?) \$end\n", text[:i])
    recs, cur, block = [], None, None
    for ln in text[i:].split("\n")[1:]:
        if not ln:
            continue
        if ln.startswith("#"):
            if not re.match(r"#-?\d+$", ln):
                raise Viol("bad-stamp", ln)
            t = int(ln[1:])
            if cur is not None and t < cur:
                raise Viol("time-backwards", "%d after %d" % (t, cur))
            cur = t
            recs.append(("time", cur, None, None))
        elif ln.startswith("$comment"):
            pass
        elif ln.startswith("$dump"):
            block = ln[1:]
            recs.append((block, cur, None, None))
        elif ln == "$end":
            recs.append(("end", cur, None, None))
        else:
            m = re.match(r"b([01]+|x+) (\S)$|([01x])(\S)$", ln)
            if not m:
                raise Viol("bad-line", ln)
            s, k = (m[1], m[2]) if m[1] else (m[3], m[4])
            recs.append(("val", cur, k, (None if s[0] == "x" else int(s, 2), len(s))))
    return unit, [(k, int(w), n) for w, k, n in var], recs


class P:
    ID = "C15"
    RULE = ("Random store programs on four machines and console writes under one or two VCD logs with random fields, names, clocks, units, starts, pauses, resumes, pause limits, deletions and stops; the "
            "file must list for each field the values a single-stepped twin goes through, stamped inside the step that made them; also killed at any point, with failing opens and full disks.")
    QUICK_S = 40
    QUICK_N = 2500
    THOROUGH_S = 900
    SIMS = sorted(MACH)

    def gen(self, rng, tier):
        sim = rng.choice(["s51", "s51", "z80", "mos6502", "stm8"])
        typ, base, areas = MACH[sim]
        locs = []
        for _ in range(rng.choice([1, 2, 3, 5])):
            sp, lo, hi = rng.choice(areas)
            l = [sp, rng.randrange(lo, hi + 1)]
            if l not in locs:
                locs.append(l)
        code = []
        for _ in range(rng.choice([20, 60, 120])):
            code += ins(sim, rng, locs) if rng.random() < .8 else [{"s51": 0, "z80": 0, "mos6502": 0xea, "stm8": 0x9d}[sim]] * rng.randrange(1, 5)
        names = []
        for i in range(len(locs)):
            if rng.random() < .3:
                h = rng.randrange(8)
                names.append(["nm_%d" % i] + rng.choice([[i, 7, 0], [i, 7, 0], [i, h, rng.randrange(h + 1)]]))
        vcds = []
        for k in range(rng.choice([1, 1, 2])):
            vs = []
            for _ in range(rng.choice([1, 2, 3, 6])):
                l = rng.randrange(len(locs))
                if rng.random() < .5:
                    h, lo = 7, 0
                else:
                    h = rng.randrange(8)
                    lo = rng.choice([h, h, rng.randrange(h + 1)])
                form = rng.choice(["mem", "mem", "arr"])
                nm = [n for n in names if n[1:] == [l, h, lo]]
                if nm and rng.random() < .7:
                    form = nm[0][0]
                v = dict(loc=l, h=h, l=lo, form=form)
                if not any((x["loc"], x["h"], x["l"]) == (l, h, lo) for x in vs):
                    vs.append(v)
            vcds.append(dict(vars=vs, unit=rng.choice([None, None, None, [1, "us"], [10, "ns"], [100, "ns"], [1, "ns"], [10, "us"], [1, "ps"], [100, "us"]])))
        ops = []
        up = [0] * len(vcds)
        total = 0
        for _ in range(rng.choice([6, 12, 25])):
            k = rng.randrange(len(vcds))
            q = rng.random()
            if not up[k] and q < .6:
                ops.append(["vcd", k, rng.choice(["start", "start", "restart"])])
                up[k] = 1
            elif q < .6:
                n = rng.choice([1, 2, 5, 12, 30])
                n = min(n, 150 - total)
                if n > 0:
                    total += n
                    ops.append(["step", n])
            elif q < .75:
                ops.append(["vcd", k, rng.choice(["pause", "restart", "pause"])])
            elif q < .85:
                ops.append(["set", rng.randrange(len(locs)), rng.randrange(256)])
            elif q < .9:
                ops.append(["pt", k, rng.choice([0, 1, 5, 100]), rng.choice(["us", "us", "ms", "ns"])])
            elif q < .95:
                ops.append(["del", k, rng.randrange(len(vcds[k]["vars"])), rng.choice(["mem", "arr"])])
            else:
                ops.append(["vcd", k, "stop"])
                up[k] = 0
        if rng.random() < .7:
            for k in range(len(vcds)):
                ops.append(["vcd", k, "stop"])
        return dict(sim=sim, code=code, locs=locs, names=names, vcds=vcds, ops=ops, xtal=rng.choice([None, None, "1M", "12M", "32768", "3579545", "20M"]), pert=rng.randrange(256),
                    fault=rng.choice([None, None, "kill", "full", "openfail"]), fpos=rng.random(), _lists=["ops", "names"])

    def trivial(self, case):
        return not any(o[0] == "vcd" for o in case["ops"])

    def cmds(self, case, twin):
        """-> (commands, [(op index, sub-step) or None per command])"""
        c, tag = [], []

        def put(x, t=None):
            c.append(x)
            tag.append(t)

        sess = [0] * len(case["vcds"])
        st = [0] * len(case["vcds"])
        for n, l, h, lo in case["names"]:
            sp, a = case["locs"][l]
            put("var %s %s[0x%x]%s" % (n, sp, a, "" if (h, lo) == (7, 0) else ".%d" % h if h == lo else "[%d:%d]" % (h, lo)))
        if not twin:
            for k, v in enumerate(case["vcds"]):
                if k:
                    put("set hw vcd[0] new %d" % k)
                for x in v["vars"]:
                    put("set hw vcd[%d] add %s" % (k, self.ref(case, x, x["form"])))
                if v["unit"]:
                    put("set hw vcd[%d] timescale %d %s" % (k, v["unit"][0], v["unit"][1]))
                put('set hw vcd[%d] output "o%d_0.vcd"' % (k, k))
        put("pc 0x%x" % MACH[case["sim"]][1])

        def obs(i, j):
            put("state", ("state", i, j))
            for l, (sp, a) in enumerate(case["locs"]):
                put("expr %s[0x%x]" % (sp, a), ("val", i, j, l))
        if twin:
            obs(-1, 0)
        for i, o in enumerate(case["ops"]):
            if o[0] == "step":
                if twin:
                    for j in range(o[1]):
                        put("step 1")
                        obs(i, j)
                else:
                    put("step %d" % o[1], ("op", i))
            elif o[0] == "set":
                sp, a = case["locs"][o[1]]
                put("%s[0x%x]=0x%x" % (sp, a, o[2]), ("op", i))
                if twin:
                    obs(i, 0)
            elif not twin:
                k = o[1]
                if o[0] == "pt":
                    put("set hw vcd[%d] pausetime %d %s" % (k, o[2], o[3]), ("op", i))
                elif o[0] == "del":
                    put("set hw vcd[%d] del %s" % (k, self.ref(case, case["vcds"][k]["vars"][o[2]], o[3])), ("op", i))
                else:
                    put("set hw vcd[%d] %s" % (k, o[2]), ("op", i))
                    if o[2] == "stop":
                        if st[k]:
                            sess[k] += 1
                        st[k] = 0
                        put('set hw vcd[%d] output "o%d_%d.vcd"' % (k, k, sess[k]))
                    elif o[2] in ("start", "restart"):
                        st[k] = 1
        put("state", ("end",))
        put("info registers")
        for sp in sorted({s for s, lo, hi in MACH[case["sim"]][2]}):
            put("dump /h %s 0 0xff 32" % sp, ("fin", sp))
        return c, tag

    def ref(self, case, v, form):
        sp, a = case["locs"][v["loc"]]
        h, l = v["h"], v["l"]
        whole = (h, l) == (7, 0)
        if form == "mem":
            return "%s 0x%x%s" % (sp, a, "" if whole else " %d" % h if h == l else " %d %d" % (h, l))
        if form == "arr":
            return "%s[0x%x]%s" % (sp, a, "" if whole else ".%d" % h if h == l else "[%d:%d]" % (h, l))
        return form

    def run(self, ctx, case, twin, extra=None, must_end=True, limit=3000000):
        cm, tag = self.cmds(case, twin)
        base = MACH[case["sim"]][1]
        code = case["code"] + [{"s51": 0, "z80": 0, "mos6502": 0xea, "stm8": 0x9d}[case["sim"]]] * 160

        def ex(s):
            s.raw("limit %d" % limit)
            if not twin:
                for k in range(len(case["vcds"])):
                    for j in range(sum(1 for o in case["ops"] if o[0] == "vcd") + 1):
                        s.file("o%d_%d.vcd" % (k, j), b"")
            if extra:
                extra(s)
        r, out = script.run(ctx, case["sim"], MACH[case["sim"]][0], cm, ["p.ihx"] + (["-X", case["xtal"]] if case["xtal"] else []), [("p.ihx", sims.ihex(code, base))], perturb=case["pert"],
                            must_end=must_end, limit=limit, extra=ex)
        return r, out, tag, cm

    def check(self, case, ctx):
        rt, ot, tg, _ = self.run(ctx, case, True)
        obs, hz, fin_t = {}, None, {}
        for t, o in zip(tg, ot):
            if o is None:
                raise Viol("twin-lost", "a command of the stepped run gave no output")
            if t and t[0] == "state":
                c = script.counters(o)
                hz = int(re.search(r"frequency= (\d+) HZ", o)[1])
                obs[t[1], t[2]] = [c["total"], {}]
            elif t and t[0] == "val":
                obs[t[1], t[2]][1][t[3]] = int(o.split()[0]) & 0xff
            elif t and t[0] in ("fin", "end"):
                fin_t[t] = script.scrub(o)
        r, o, tag, cm = self.run(ctx, case, False)
        for t, x in zip(tag, o):
            if t in fin_t and (x is None or script.scrub(x) != fin_t[t]):
                raise Viol("disturbed", "logging changed the outcome of the program (%s)" % (t,))
        fails = set()
        self.walk(case, r, obs, hz, ctx)
        f = case["fault"]
        files = sorted(k for k in r.eps if k.startswith("o") and k.endswith(".vcd") and r.eps[k].out)
        if not f or not files:
            return
        if f == "kill":
            lim = max(1, int(r.stats["calls"] * case["fpos"]))
            r2, o2, tag2, _ = self.run(ctx, case, False, must_end=False, limit=lim)
            ctx.mark("kill")
            done = -1
            for i, x in enumerate(o2):
                if x is not None and i + 1 < len(o2) and o2[i + 1] is not None and tag2[i] and tag2[i][0] == "op":
                    done = tag2[i][1]
            for n in files:
                full, part = r.eps[n].out, r2.eps[n].out if n in r2.eps else b""
                if not full.startswith(part):
                    raise Viol("kill-garbage", "%s of a killed run is not the beginning of the file of the undisturbed run" % n)
                need = self.durable(n, done)
                if len(part) < need:
                    raise Viol("kill-lost", "%s of a killed run has %d bytes, %d had been reported before op %d" % (n, len(part), need, done))
        else:
            n = files[int(case["fpos"] * len(files)) % len(files)]
            kth = 1 + int(case["fpos"] * 20)
            r2, o2, tag2, _ = self.run(ctx, case, False, extra=(lambda s: s.wfault(n, kth, "full", 100000)) if f == "full" else (lambda s: s.raw("openfail %s 13" % n)))
            ctx.mark(f)
            for t, x in zip(tag2, o2):
                if t in fin_t and (x is None or script.scrub(x) != fin_t[t]):
                    raise Viol("disturbed-" + f, "a failing log file changed the outcome of the program (%s)" % (t,))
            for m in files:
                a, b = r.eps[m].out, r2.eps[m].out if m in r2.eps else b""
                if m == n and not a.startswith(b):
                    raise Viol("full-garbage", "the part of %s written before the disk was full is not the beginning of the file" % m)
                if f == "full" and m != n and a != b:
                    raise Viol("full-other", "%s changed because %s could not be written" % (m, n))

    def durable(self, name, done):
        best = 0
        for op, off in self.dur.get(name, []):
            if op <= done:
                best = max(best, off)
        return best

    def walk(self, case, r, obs, hz, ctx):
        """Build the expected records of every file and compare."""
        nv = len(case["vcds"])
        self.dur = {}
        T, vals = obs[-1, 0][0] / hz, dict(obs[-1, 0][1])
        st = [dict(sess=0, on=False, paused=False, exp=[], S=0.0, pt=-1.0, pT=0.0, dead=set(), gone=set()) for _ in range(nv)]

        def fv(v, vals):
            return vals[v["loc"]] >> v["l"] & ((1 << (v["h"] - v["l"] + 1)) - 1)

        def close(k, ended, i):
            s = st[k]
            self.compare(case, k, s, r, ended, i)
            s["sess"] += 1

        for i, o in enumerate(case["ops"]):
            if o[0] in ("step", "set"):
                for j in range(o[1] if o[0] == "step" else 1):
                    n = obs[i, j]
                    T2, v2 = n[0] / hz, n[1]
                    for k, s in enumerate(st):
                        if s["on"] and not s["paused"]:
                            for x, v in enumerate(case["vcds"][k]["vars"]):
                                if x not in s["gone"] and fv(v, vals) != fv(v, v2):
                                    s["exp"].append(("chg", T - s["S"], T2 - s["S"], x, fv(v, v2), i))
                                    ctx.mark("change")
                    T, vals = T2, dict(v2)
                continue
            k = o[1]
            s = st[k]
            vs = case["vcds"][k]["vars"]
            if o[0] == "pt":
                s["pt"] = o[2] * UNIT[o[3]]
            elif o[0] == "del":
                s["gone"].add(o[2])
            elif o[2] == "stop":
                if s["on"]:
                    s["exp"].append(("time", T - s["S"], T - s["S"], None, None, i))
                    close(k, True, i)
                s["on"] = s["paused"] = False
            elif not s["on"]:
                if o[2] in ("start", "restart"):
                    s.update(on=True, paused=False, S=T, exp=[("dumpvars", 0.0, 0.0, None, {x: fv(v, vals) for x, v in enumerate(vs) if x not in s["gone"]}, i)], hdr=set(s["gone"]))
            elif s["paused"]:
                gap = T - s["pT"]
                if s["pt"] >= 0 and gap > s["pt"]:
                    s["S"] += gap - s["pt"]
                    ctx.mark("pause-cut")
                s["paused"] = False
                s["exp"].append(("dumpon", T - s["S"], T - s["S"], None, {x: fv(v, vals) for x, v in enumerate(vs) if x not in s["gone"]}, i))
            elif o[2] == "pause":
                s["paused"] = True
                s["pT"] = T
                s["exp"].append(("dumpoff", T - s["S"], T - s["S"], None, {x: None for x in range(len(vs)) if x not in s["gone"]}, i))
        for k in range(nv):
            if st[k]["on"]:
                close(k, False, len(case["ops"]))

    def compare(self, case, k, s, r, ended, op):
        name = "o%d_%d.vcd" % (k, s["sess"])
        text = r.eps[name].out.decode("latin1") if name in r.eps else ""
        unit, var, recs = parse(text)
        vs = case["vcds"][k]["vars"]
        idx = [x for x in range(len(vs)) if x not in s["hdr"]]
        if len(var) != len(idx) or len({v[0] for v in var}) != len(var):
            raise Viol("header-vars", "%s declares %d variables, %d were added" % (name, len(var), len(idx)))
        ids = {}
        for x, (vid, w, nm) in zip(idx, var):
            if w != vs[x]["h"] - vs[x]["l"] + 1:
                raise Viol("header-width", "%s: %s declared %d bits wide" % (name, nm, w))
            if not re.fullmatch(fieldname(vs[x], case), nm):
                raise Viol("header-name", "%s: %s declared for %s" % (name, nm, fieldname(vs[x], case)))
            ids[vid] = x
        wu = case["vcds"][k]["unit"]
        if wu and abs(unit / (wu[0] * UNIT[wu[1]]) - 1) > 1e-6:
            raise Viol("unit", "%s: time unit %g, %d %s was asked for" % (name, unit, wu[0], wu[1]))
        # what the file says, without repeated values
        got, cur, blk, off = [], {}, None, 0
        for kind, t, vid, v in recs:
            if kind == "val":
                if vid not in ids:
                    raise Viol("unknown-id", "%s: value of an undeclared variable %s" % (name, vid))
                x = ids[vid]
                if v[1] != vs[x]["h"] - vs[x]["l"] + 1:
                    raise Viol("value-width", "%s: value of %d bits for variable %d" % (name, v[1], x))
                if blk is not None:
                    blk[x] = v[0]
                    cur[x] = v[0]
                elif cur.get(x, -1) != v[0]:
                    cur[x] = v[0]
                    got.append(("chg", t, x, v[0]))
            elif kind.startswith("dump"):
                blk = {}
                got.append((kind, t, None, blk))
            elif kind == "end":
                blk = None
        exp = list(s["exp"])
        if ended:
            last = [q for q in recs if q[0] == "time"]
            e = exp.pop()
            if not last or not self.near(last[-1][1], unit, e[1], e[2]):
                raise Viol("end-stamp", "%s: recording stopped at %.12g, last stamp says %s units of %g" % (name, e[1], last and last[-1][1], unit))
        # changes of one step may come in any order: sort inside equal groups
        g, e = list(got), [q for q in exp]
        for n, q in enumerate(e):
            # one instruction may change several variables in any order; pick the matching record among the next ones
            m = None
            for z in range(min(len(g), 6)):
                kind, t, x, v = g[z]
                if q[0] == "chg":
                    if kind == "chg" and x == q[3]:
                        m = z
                        break
                    if kind != "chg":
                        break
                else:
                    if kind == q[0]:
                        m = z
                    break
            if m is None:
                raise Viol("missing-" + q[0], "%s: %s is not in the file (op %d); file goes on with %s" % (name, q[:5], q[5], g[:2]))
            kind, t, x, v = g.pop(m)
            if q[0] == "chg":
                if v != q[4]:
                    raise Viol("value", "%s: field %d became %d, the file says %s (op %d)" % (name, x, q[4], v, q[5]))
            elif v != q[4]:
                raise Viol("value-" + q[0], "%s: %s holds %s, fields are %s (op %d)" % (name, q[0], v, q[4], q[5]))
            if t is None or not self.near(t, unit, q[1], q[2]):
                raise Viol("stamp-" + q[0], "%s: %s at %s units of %g, happened in %.12g..%.12g (op %d)" % (name, q[0], t, unit, q[1], q[2], q[5]))
        if g:
            raise Viol("extra", "%s: %s in the file, nothing like that happened" % (name, g[0]))
        # what must be on disk at which op: all up to the last change made by the ops before
        pos, ch = 0, 0
        offs, dcur, inblk = [], {}, False
        for ln in text.split("\n"):
            pos += len(ln) + 1
            if ln.startswith("$dump"):
                inblk = True
            elif ln == "$end":
                inblk = False
            elif ln and ln[0] in "01b" and not inblk:
                offs.append(pos)
        # repeated values make more lines than changes, so the k-th change lies at or after the k-th line
        c = 0
        d = self.dur.setdefault(name, [])
        for q in exp:
            if q[0] == "chg":
                if c < len(offs):
                    d.append((q[5], offs[c]))
                c += 1

    def near(self, t, unit, lo, hi):
        eps = 1e-9 * abs(hi) + 1e-15
        return lo - 0.51 * unit - eps <= t * unit <= hi + 0.51 * unit + eps


PROP = P()
