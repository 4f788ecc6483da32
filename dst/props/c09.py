"""C09: see dst/s51chk.py."""
from .. import s51chk


class P:
    ID = "C09"
    RULE = ('One case = a random machine state (iram, registers) and program (whole 64K of code from random instructions of an 8051/8052) run in random pieces with port pins driven between them; after every piece PC, clocks, all SFRs and iram equal those of the reference model.')
    QUICK_S = 40
    THOROUGH_S = 600
    SIMS = ["s51"]

    def gen(self, rng, tier):
        return s51chk.gen_isa(rng, tier)

    def trivial(self, case):
        return not case["segs"] or not case["code"]

    def check(self, case, ctx):
        if case["code"] and len(case["iram"]) == 256:
            s51chk.check(case, ctx)


PROP = P()
