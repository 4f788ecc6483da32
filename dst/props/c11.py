"""C11: see dst/s51chk.py."""
from .. import s51chk


class P:
    ID = "C11"
    RULE = ('One case = a random program with handlers at all vectors, random enables, priorities, request flags, timers, pin edges and levels, and idle mode; after every piece PC, stack, flags, time and time in ISR/idle equal those of the reference model.')
    QUICK_S = 40
    THOROUGH_S = 600
    SIMS = ["s51"]

    def gen(self, rng, tier):
        return s51chk.gen_irq(rng, tier)

    def trivial(self, case):
        return not case["segs"] or not case["code"]

    def check(self, case, ctx):
        if case["code"] and len(case["iram"]) == 256:
            s51chk.check(case, ctx)


PROP = P()
