"""C19: after `reset` a machine does what a freshly started one with the same memory does."""
import re
from ..core import Viol
from .. import script, sims
from .c02 import first_diff
from .c02 import obs as obs02
from .c02 import scrub as scrub02

# contents of idle shift registers, of a place outside the memory, and running totals of oscillator periods have no meaning of their own
SHIFT = re.compile(r"s_(in|out)=0x..,\d+,(.|\n)|\[SP\+1\]= .. .{5}|^0x0. .*(?:Received|Transmitted|char|flow-control).*$|^Th=.* Te=.*$", re.M)


def scrub(t):
    t = scrub02(t)
    return t and SHIFT.sub("", t)

# memory that survives a reset: both machines get the same contents after it
RAM = {"s51": [("iram", 0, 0xff), ("xram", 0, 0xffff), ("xram_chip", 0, 0xffff), ("eram_chip", 0, 0xff)], "stm8": [("rom", 0, 0x4fff), ("rom", 0x5800, 0x7eff), ("rom", 0x7f0b, 0x7f6f), ("rom", 0x7f78, 0x7fff)], "st7": [("rom", 0x80, 0xffff)], "z80": [("rom", 0, 0xffff), ("outputs", 0, 0xff)],
       "i8085": [("rom", 0, 0xffff)], "i8048": [("iram", 0, 0xff), ("xram", 0, 0xff)], "m6800": [("rom", 0, 0xffff)], "m6809": [("rom", 0, 0xffff)], "m68hc08": [("rom", 0, 0xffff)],
       "m68hc11": [("rom", 0, 0xffff)], "m68hc12": [("rom", 0, 0xffff)], "mos6502": [("rom", 0, 0xffff)], "avr": [("iram", 0, 0x1f), ("iram", 0x20, 0x5c), ("iram", 0x60, 0xff)]}

# peripheral addresses of the STM8 types to which a reset gives no value: both machines get one
_S = "5003-5004,5008-5009,500d-500e,5012-5013,5017-5018,501c-501d,5021-5022,5026-5027,502b-5059,505d-505e,5060-5061,5063,5065-50c5,50c8-50c9,50cb-%s,524c-524f,5276-52ff,5366-57ff"
UNDEF = {"": _S % "522f,523c-523f", "S105": _S % "523f",
         "S003": "5003-5004,5008-5009,500d-500e,5012-5013,5017-5018,501c-5059,505d-505e,5060-5061,5063,5065-50c5,50c8-50c9,50cb-522f,523c-524f,5276-52ff,5326-533f,5366-57ff",
         "STM8L": "5003-5004,5008-5009,500d-500e,5012-5013,5017-5018,501c-501d,5021-5022,5026-5027,502b-504f,5055-50bf,50c1-50c2,50c5-50cf,50d1-522f,523c-524f,5276-527f,52a6-52af,52d6-52df,"
                  "5326-53df,53ec-53ef,53fc-57ff"}


def prologue(sim, typ, r):
    """instructions at the reset address that give the registers a reset leaves undefined a value"""
    b = lambda: r.randrange(256)
    if sim == "z80":
        o = [[0x31, b(), 0x80], [0xf1], [0x01, b(), b()], [0x11, b(), b()], [0x21, b(), b()]]
        if typ == "GB80":
            return o
        return o + [[0x08], [0xd9], [0x31, b(), 0x90], [0xf1], [0x01, b(), b()], [0x11, b(), b()], [0x21, b(), b()]] + [[0xdd, 0x21, b(), b()], [0xfd, 0x21, b(), b()]]
    if sim == "i8085":
        return [[0x31, b(), 0x80], [0xf1], [0x01, b(), b()], [0x11, b(), b()], [0x21, b(), b()]]
    if sim == "mos6502":
        return [[0xa2, b()], [0x9a], [0x68], [0x28], [0xa9, b()], [0xa2, b()], [0xa0, b()]]
    if sim == "m6800":
        return [[0x8e, 0x20, b()], [0xc6, b()], [0xce, b(), b()], [0x86, b()], [0x06], [0x86, b()]]
    if sim == "m6809":
        return [[0x86, b()], [0xc6, b()], [0x8e, b(), b()], [0x10, 0x8e, b(), b()], [0xce, b(), b()], [0x10, 0xce, 0x20, b()], [0x1c, 0x50]]
    if sim == "m68hc08":
        return [[0xa6, b()], [0x84], [0x45, b(), b()], [0xa6, b()]]
    if sim == "m68hc11":
        return [[0x8e, 0x20, b()], [0xc6, b()], [0xce, b(), b()], [0x18, 0xce, b(), b()], [0x86, b()], [0x86, b() & 0x7f], [0x06]]
    if sim == "m68hc12":
        return [[0xcf, 0x20, b()], [0xc6, b()], [0xce, b(), b()], [0xcd, b(), b()], [0x86, b() & 0x7f], [0xb7, 0x43], [0xb7, 0xb4], [0xcc, b(), b()], [0x86, b() & 0x7f], [0xb7, 0x02]]
    if sim == "i8048":
        # the latches of the bus and of the port expander have no reset
        return [[0x97], [0x85], [0xa5], [0x23, b()], [0x62], [0x23, b()], [0x02], [0x3c], [0x3d], [0x3e], [0x3f], [0x23, b()]]
    return []


class P:
    ID = "C19"
    RULE = ("One case = one random program that runs for a while (timers, interrupts, serial lines, idle modes), is reset and gets the same memory as a fresh machine; registers, peripherals and counters "
            "must be equal right after the reset and after any number of further instructions.")
    QUICK_S = 45
    THOROUGH_S = 900
    LEVEL = "exploration"

    def gen(self, rng, tier):
        sim = rng.choice(sorted(RAM) + ["s51", "stm8"] * 4)
        typ = rng.choice([t for t in sims.SIMS[sim][0] if t not in ("HUC6280", "I8021", "I8022", "I8041A", "51")])
        d = sims.SIMS[sim]
        pro = prologue(sim, typ, rng)
        soup = rng.random() < .6 and sims.periph_soup(sim, rng)
        cells = soup or sims.code_image(sim, rng)
        after = []
        if soup and rng.random() < .6:
            after = sims.periph_soup(sim, rng) if rng.random() < .6 else [{"s51": 0, "stm8": 0x9d, "i8048": 0}[sim]] * 40
        return dict(sim=sim, typ=typ, R=rng.randrange(1, 10 ** 6), head=[x for i in pro for x in i], cells=cells, after=after, n1=rng.choice([1, 3, 10, 40, 150, 600, 3000]) if not soup else rng.randrange(1, rng.choice([40, 100, 400, 1500])), n2=len(pro) + rng.choice([0 if pro else 1, 5, 20, 100, 500, 2000]), pro=len(pro),
                    fill=rng.randrange(256), how=rng.choice(["reset", "reset", "twice", "late"]), uin=rng.random() < .3, perturb=rng.choice([0, 0x5a]), _lists=["cells"])

    def shrink(self, case):
        for f in ("n1", "n2"):
            for k in (1, 3, 10, 50, 200):
                if k < case[f] - case["pro"]:
                    yield dict(case, **{f: k + case["pro"]})
        if case.get("after"):
            yield dict(case, after=[])
        if case["uin"]:
            yield dict(case, uin=False)
        if case["how"] != "reset":
            yield dict(case, how="reset")

    def check(self, case, ctx):
        sim, typ = case["sim"], case["typ"]
        if not case["cells"]:
            return
        fi, ar, pre = sims.place(sim, case["head"] + case["cells"], True)
        ar = ["-R", str(case["R"])] + ar
        if case["uin"] and sim in ("s51", "stm8"):
            # an endless stream of the same character, at the same phase after a reset
            fi = fi + [("u.in", b"U" * 60000)]
            ar = ar[:2] + ["-S", "uart=0,in=u.in,out=u.out"] + ar[2:]
        mem = ["fill %s 0x%x 0x%x 0x%x" % (s, a, b, case["fill"]) for s, a, b in RAM[sim]]
        if fi:
            mem.append('file "p.ihx"')
            if case.get("after"):
                # another program than the one before the reset
                fi = fi + [("q.ihx", sims.ihex(case["head"] + case["after"], sims.SIMS[sim][2]))]
                mem.append('file "q.ihx"')
        else:
            mem += pre[:-1]
        if sim == "stm8":
            # addresses without memory read as random numbers: give them some
            pre = ["memory create chip hole 0x4000 8"] + ["memory create addressdecoder rom 0x%x 0x%x hole 0x%x" % x for x in ((0x1800, 0x3fff, 0), (0x5800, 0x5fff, 0x2800), (0x6800, 0x7eff, 0x2800))] + pre
            mem += ["fill rom 0x%s 0x%s 0x5a" % (x.split("-")[0], x.split("-")[-1]) for x in UNDEF[typ if typ in UNDEF else ""].split(",")]
        if case["pro"]:
            mem.append(pre[-1])     # start at the prologue, not at what the vector holds
        ob = obs02(sim) + (["info hardware wdt[0]", "info hardware pca[0]"] if sim == "s51" else [])
        if sim == "pblaze":
            ob = [c for c in ob if "port" not in c]      # what the last port instruction showed on the pins
        # registers and latches without reset get their values in the prologue
        first = [c for c in ob if not (case["pro"] and (c.startswith("info reg") or "bus" in c or "pext" in c))]

        def run(head, ar=ar):
            cm = pre + head + mem + first + ["step %d" % case["n2"]] + ob
            r, o = script.run(ctx, sim, typ, cm, ar, fi, perturb=case["perturb"])
            o = o[len(pre) + len(head) + len(mem):]
            return [scrub(x) for x in o[:len(first)]], first, [scrub(x) for x in o[len(first) + 1:]], o[len(first) + 2]
        A = run(["reset"])
        st = ["step %d" % case["n1"]]
        head = {"reset": st + ["reset"], "twice": st + ["reset", "step 3", "reset"], "late": st + ["pc", "reset"]}[case["how"]]
        B = run(head)
        ctx.mark("sim_" + sim)

        def diff(A, B):
            for when, cm, a, b in (("right after the reset", first, A[0], B[0]), ("%d steps after the reset" % case["n2"], ob, A[2], B[2])):
                for c, x, y in zip(cm, a, b):
                    if x != y:
                        return c, "%s %s: %s `%s` differs from a fresh machine\n%s" % (
                            sim, typ, when, c, first_diff(x or "", y or "").replace("one go", "fresh").replace("cut", "reset"))
        d = diff(A, B)
        if d:
            # places without memory read as random numbers: a program that uses them is not specified
            for k in (1, 2, 3):
                far = ["%s[0x%x]=%d" % (m, 0x200000, k) for m in sorted({x[0] for x in RAM[sim]})] * k
                if diff(A, run(far + ["reset"])):
                    ctx.mark("undefined")
                    return
            raise Viol("diff:" + sim + ":" + " ".join(d[0].split()[:3]), d[1])
        ctx.ticks += script.counters(A[3] or "").get("total", 0)


PROP = P()
