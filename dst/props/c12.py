"""C12: see dst/s51chk.py."""
from .. import s51chk


class P:
    ID = "C12"
    RULE = ('One case = a program that sends and receives on the serial port in all modes with random baud sources, by polling or interrupts, with input waiting; after every piece flags, SBUF, time and at the end the bytes sent equal those of the reference model.')
    QUICK_S = 40
    THOROUGH_S = 600
    SIMS = ["s51"]

    def gen(self, rng, tier):
        return s51chk.gen_serial(rng, tier)

    def trivial(self, case):
        return not case["segs"] or not case["code"]

    def check(self, case, ctx):
        if case["code"] and len(case["iram"]) == 256:
            s51chk.check(case, ctx)


PROP = P()
