"""C10: see dst/s51chk.py."""
from .. import s51chk


class P:
    ID = "C10"
    RULE = ('One case = a random program that sets up, pokes, reads and stops timers 0, 1 and 2 in all modes while it and the environment drive P1/P3 pins; after every piece (down to one instruction) timer registers, flags and clocks equal those of a machine cycle level model.')
    QUICK_S = 40
    THOROUGH_S = 600
    SIMS = ["s51"]

    def gen(self, rng, tier):
        return s51chk.gen_timers(rng, tier)

    def trivial(self, case):
        return not case["segs"] or not case["code"]

    def check(self, case, ctx):
        if case["code"] and len(case["iram"]) == 256:
            s51chk.check(case, ctx)


PROP = P()
