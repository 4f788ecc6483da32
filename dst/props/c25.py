"""C25: whatever is typed, loaded or attached, and whatever I/O fails, the simulator survives and goes on serving its other consoles."""
import re
from ..core import Viol, Scn, crashcheck
from .. import sims, uart
from . import c02, c24

PORT = 7777
NAMES = list(sims.NAMES)
CHIPS = {"s51": ["rom_chip", "iram_chip", "sfr_chip", "xram_chip"], "stm8": ["ram_chip", "flash_chip", "io_chip"], "z80": ["in_chip", "out_chip", "rom_chip"]}
SPX = {"s51": ["bits", "dptr", "regs", "sfr"], "stm8": ["regs8", "regs16"], "z80": ["regs8", "regs16", "inputs"]}
VARS = {"s51": ["ACC", "PSW", "P1", "CY", "SBUF", "EA"], "stm8": ["CC", "A", "SP", "PC"], "z80": ["A", "BC", "HL", "F"], "avr": ["PORTA", "SREG", "r0"]}
FILES = ["f.ihx", "f.cdb", "f.vcd", "f.cmd", "f.asc", "f.s19", "f.omf", "none", "o1", "o2"]
OPS = ["+", "-", "*", "/", "%", "<<", ">>", "<", ">", "==", "!=", "<=", ">=", "&&", "||", "&", "|", "^", "=", "+=", "-=", "*=", "/=", "%=", "<<=", ">>=", "&=", "|=", "^=", ","]


class G:
    """grammar of command lines"""

    def __init__(s, rng, sim, typ):
        s.r, s.sim, s.typ = rng, sim, typ
        d = sims.SIMS[sim]
        s.code = d[1]
        s.mems = [d[1], "rom"] + [x[0] for x in d[5]] + SPX.get(sim, []) + CHIPS.get(sim, ["rom_chip"]) + ["variables", "variable_storage", "x1", "x2", "x3", "nomem"]
        s.hws = c02.HW.get(sim, []) + ["cpu[0]", "vcd[0]", "simif[0]", "vcd[1]", "uart[0]", "nohw[3]", "cpu"]

    def num(s):
        r = s.r
        return r.choice(["0", "1", "2", "7", "8", "15", "16", "31", "32", "33", "0x7f", "0x80", "0xff", "0x100", "0xffff", "0x10000", "-1", "4", "3", "0b101",
                         str(r.randrange(300)), hex(r.randrange(0x10000)), "0x%x" % (r.randrange(256)), "0x%x" % r.randrange(0x400)] + (["0x7fffffff", "0xffffffff", "-2147483648", "99999999999", "0x123456"] if r.random() < .15 else ["5"]))

    def rng(s):
        """start and end of a region, seldom long"""
        r = s.r
        if r.random() < .05:
            return s.num() + " " + s.num()
        a = r.choice([0, 1, 0x20, 0x7f, 0xfe, 0xff, 0x100, 0xfff0, 0xffff, r.randrange(0x10000), r.randrange(300)])
        return r.choice(["%d %d", "0x%x 0x%x"]) % (a, max(0, a + r.choice([0, 1, 3, 15, 100, 600, -1, -20])))

    def small(s):
        return s.r.choice(["1", "2", "3", "5", "10", "100", "0", "-1", "x", "3 clk", "50 us", "7 vclk", "2 rclk", "9 furlong", "100 ns", "rclk", "2.5"])

    def mem(s):
        return s.r.choice(s.mems)

    def cell(s):
        r = s.r
        return r.choice(["%s[%s]" % (s.mem(), s.num()), "%s[%s]" % (s.code, s.num()), s.var()])

    def var(s):
        return s.r.choice(VARS.get(s.sim, ["PC", "A"]) + ["PC", "v1", "v2", "novar", "uart0_on", "vcd0_on", "simif_on"])

    def bit(s):
        return s.r.choice([s.cell() + "." + s.num(), s.num() + "." + s.num(), s.var() + "." + s.r.choice("01789"), s.mem() + "[%s].%s-%s" % (s.num(), s.r.choice("0123789"), s.r.choice("0123789"))])

    def st(s):
        r = s.r
        return r.choice(['"%s"' % r.choice(FILES), '"abc"', '"\\x41\\n\\0z"', "abc", '""', '"unterminated', "'q'", r.choice(FILES), '"a b c"', "%d%s%n", '"%s%s%n%x"', "on", "off", "auto", "info", "mod", "start", "x" * r.choice([1, 20, 300, 1200])])

    def expr(s, d=0):
        r = s.r
        k = r.random()
        if d > 3 or k < .3:
            return r.choice([s.num(), s.cell(), s.var(), s.num(), s.bit()])
        if k < .4:
            return r.choice("!~-+*&") + s.expr(d + 1)
        if k < .5:
            return "(" + s.expr(d + 1) + ")"
        if k < .55:
            return r.choice(["++", "--"]) + s.cell()
        if k < .6:
            return s.cell() + r.choice(["++", "--"])
        if k < .65:
            return s.expr(d + 1) + "?" + s.expr(d + 1) + ":" + s.expr(d + 1)
        return s.expr(d + 1) + r.choice(OPS) + s.expr(d + 1)

    def arg(s):
        r = s.r
        return r.choice([s.num, s.num, s.mem, s.cell, s.var, s.bit, s.st, s.expr, lambda: r.choice(s.hws), lambda: "r", lambda: "w", lambda: ""])()

    def line(s):
        r = s.r
        n, m, c, b, st, v, e, sm = s.num, s.mem, s.cell, s.bit, s.st, s.var, s.expr, s.small
        h = lambda: r.choice(s.hws)
        fl = lambda: '"%s"' % r.choice(FILES)
        T = [
            lambda: "dump %s %s %s" % (m(), s.rng(), r.choice(["", "1", "8", "16", "0", "-1", n()])),
            lambda: "dump /%s %s %s" % (r.choice(["h", "i", "b", "I", "hb", "a", "n", "s", "q", "x1"]), m(), s.rng()),
            lambda: "dump %s" % s.arg(), lambda: "dump %s %s" % (m(), s.arg()), lambda: r.choice(["di", "dx", "ds", "dch", "dc", "dump", "disassemble", "dis"]) + " " + r.choice(["", n(), s.rng(), s.arg()]),
            lambda: "fill %s %s %s" % (m(), s.rng(), n()), lambda: "%s %s %s" % (r.choice(["where", "Where"]), m(), " ".join(r.choice([n(), st()]) for _ in range(r.randrange(4)))),
            lambda: "hole %s %s %s" % (m(), n(), n()), lambda: "hole",
            lambda: "set mem %s %s %s" % (m(), n(), " ".join(r.choice([n(), st()]) for _ in range(r.choice([0, 1, 2, 5, 40])))), lambda: "set mem %s %s" % (b(), n()),
            lambda: "get sfr %s" % n(), lambda: "get %s" % r.choice(["option", "output", "sfr", "option quit", ""]),
            lambda: "set hw %s %s" % (h(), " ".join(s.arg() for _ in range(r.randrange(4)))),
            lambda: "set hw vcd[%s] %s" % (r.choice("001"), r.choice(["add %s" % c(), "add %s %s" % (m(), n()), "add %s %s %s" % (m(), n(), n()), "add %s %s %s %s" % (m(), n(), n(), n()), "add %s %s" % (c(), n()), "add %s" % b(),
                                                     "add %s[0x20]" % s.code, "add %s 0x30" % s.mems[2], "del %s" % c(), "del %s[0x20]" % s.code, "del %s %s" % (m(), n()), "del %s %s %s" % (m(), n(), n()), "delete %s" % b(), "input %s" % fl(), 'input "f.vcd"', 'input "f.vcd"', "output %s" % fl(), "file o1", 'file "o2"',
                                                     "start", "start", "start", "restart", "pause", "pause", "stop", "break", "info", "new 1", "new %s" % n(), "timescale %s %s" % (n(), r.choice(["ms", "us", "ns", "ps", "fs", "x"])),
                                                     "timescale auto", "pausetime %s us" % n(), "starttime %s ns" % n(), "mod x%d%s", "view"])),
            lambda: "set hw simif[0] %s" % r.choice(["%s %s" % (m(), n()), "%s 0x40" % s.mems[1], "fin %s" % fl(), "fout %s" % fl(), "fin NULL", "fout NULL", "fout o1", "fin f.cmd"]),
            lambda: "set hw uart[%s] %s" % (r.choice("0123"), r.choice(["in %s" % fl(), "out %s" % fl(), "file %s" % fl(), "port %s" % n(), "iport 9001", "oport 9002", "port 9003", "raw 1", "raw 0", n(), ""])),
            lambda: "set %s" % r.choice(["option %s %s" % (st(), st()), "option %s %s" % (n(), st()), "error %s %s" % (st(), r.choice(["on", "off", "unset", "?", "1", "n"])), "error non-classified on", "error memory off",
                                          "console %s" % r.choice(["interactive", "non-interactive", "interactive on", "echo_on", "echo_off", "raw", "edited", "coocked", "x"]), "mem", "hw", "option"]),
            lambda: "info %s" % r.choice(["registers", "breakpoints", "memory", "timers", "vars", "vars %s" % v(), "hw", "hw %s" % h(), "stack", "hardware", "registers 3", "x", ""]),
            lambda: "show %s" % r.choice(["option", "error", "console", "warranty", "copying", "option %s" % st(), "x"]),
            lambda: "conf %s" % r.choice(["", "objects", "types", "x"]),
            lambda: "memory %s" % r.choice(["info", "", "cell %s" % c(), "cell %s %s" % (m(), n()), "cell", "create", "remove", "remove chip %s" % r.choice(["x1", "x2", s.mems[-4]] + s.mems[:3])]),
            lambda: "memory create chip %s %s %s" % (r.choice(["x1", "x2", st()]), r.choice(["0x100", "0x10000", n()]), r.choice(["", "8", "16", "32", "1", n()])),
            lambda: "memory create addressspace %s %s %s %s" % (r.choice(["x3", "x3", st()]), r.choice(["0", n()]), r.choice(["0x100", "0x10000", n()]), r.choice(["8", "8", "32", n()])),
            lambda: "memory create addressdecoder %s" % r.choice(["x3 0 0xff x1 0", "x3 %s %s x1 %s" % (n(), n(), n()), "%s %s %s %s %s" % (m(), n(), n(), r.choice(["x1", "x2", m()]), n()), "%s %s" % (m(), m()), "%s %s %s" % (m(), n(), m()), s.arg()]),
            lambda: "memory create banker %s" % r.choice(["%s %s %s %s %s %s" % (m(), n(), n(), m(), n(), n()), "x3 0 3 x3 0x10 0x4f", "%s 0x10 3 x3 0x10 0x4f" % s.mems[2], s.arg()]),
            lambda: "memory create bank %s" % r.choice(["%s %s %s %s %s" % (m(), n(), n(), m(), n()), "x3 0x10 %s x1 %s" % (n(), n()), "x3 0x10 0 x1 0", "x3 0x10 1 x1 0x40", s.arg()]),
            lambda: "memory create bander %s" % r.choice(["%s %s %s %s %s %s" % (m(), n(), n(), m(), n(), n()), "x3 0x80 0xff x1 %s %s %s" % (n(), n(), n()), "x3 0x80 0x8f x1 0 8", s.arg()]),
            lambda: "break %s %s" % (r.choice([n(), c(), s.arg()]), r.choice(["", n(), "2 if " + e()])), lambda: "%s %s %s %s %s" % (r.choice(["break", "tbreak"]), m(), r.choice("rwx"), n(), r.choice(["", n(), '1 if "%s"' % e(), "1 if " + e()])),
            lambda: "tbreak %s" % r.choice([n(), s.arg()]), lambda: "clear %s" % r.choice(["", n(), s.arg()]), lambda: "delete %s" % r.choice(["", n(), "1", "2", "1 2 3"]),
            lambda: "commands %s %s" % (r.choice(["1", "2", n(), s.arg()]), r.choice(["", '"dump %s 0 3"' % s.code, '"step"', st(), '"delete 1"', '"echo x"'])),
            lambda: "display %s" % r.choice(["", e(), "/x " + e(), "/%s %s" % (r.choice("xXdoub0Bcsn"), c())]), lambda: "undisplay %s" % n(),
            lambda: "expr%s %s" % (r.choice(["", "", " /x", " /b", " /n", " /c", " /0", " /B", " /xdb"]), e()), lambda: e(),
            lambda: "var %s %s" % (r.choice(["v1", "v2", st()]), r.choice(["", "%s %s" % (m(), n()), "%s %s %s" % (m(), n(), n()), "%s %s %s %s" % (m(), n(), n(), n()), c(), b(), n()])), lambda: "rmvar %s" % r.choice(["v1", "v2", v(), st(), ""]),
            lambda: "timer %s %s %s" % (r.choice(["add", "delete", "get", "run", "stop", "set", "list", "x"]), r.choice(["1", "2", "t1", "0", n(), st(), ""]), r.choice(["", n(), "-1", "1 isr", "1 idle", "1 halt", "%s us" % n(), "%s %s ms" % (n(), n()), st()])),
            lambda: "file %s" % fl(), lambda: "check %s" % fl(), lambda: "exec %s" % r.choice(['"f.cmd"', '"none"', '"o1"', '"f.ihx"']),
            lambda: "download\n:%s\n:00000001FF\n:00000001FF" % r.choice(["00000001FF", "0100000000FF", "zz", "01000001"]),
            lambda: "pc %s" % r.choice(["", n(), s.arg()]), lambda: "reset %s" % r.choice(["", "", h(), s.arg()]), lambda: "tick %s" % r.choice(["1", "100", "5000", "", "x", "0", "-1"]),
            lambda: "step %s" % sm(), lambda: "step", lambda: "next %s" % r.choice(["", "2", "x"]), lambda: "stop", lambda: "run %s" % r.choice(["", "0 0x10", n(), n() + " " + n(), "x"]),
            lambda: "history %s" % r.choice(["", "clear", "information", "list", "x"]), lambda: "state %s" % r.choice(["", "x"]), lambda: "statistic %s" % r.choice(["", m(), m() + " " + n(), m() + " " + n() + " " + n(), s.arg()]),
            lambda: "import %s" % r.choice(["input", "interrupts", "pbstate", ""]), lambda: "pbstate", lambda: "analyze %s" % n(),
            lambda: "help %s" % r.choice(["", "dump", "set hw", "x", "memory create", "timer add", st()]), lambda: "echo %s" % s.arg(), lambda: "version",
            lambda: 'expr 3 >"%s"' % r.choice(["o1", "o2"]), lambda: 'info memory >>"o1"', lambda: "state | x", lambda: "di ; expr 3; set", lambda: "%s %s" % (r.choice(["!", "#", ";", ":", "\\", "'", ".", "[", "&"]), s.arg()),
            lambda: " ".join(s.arg() for _ in range(r.randrange(6))),
        ]
        x = r.choice(T)()
        k = r.random()
        if k < .03:
            x = x[:r.randrange(len(x) + 1)]
        elif k < .06:
            i = r.randrange(len(x) + 1)
            x = x[:i] + r.choice(['"', "(", ")", "[", "]", ".", ";", ">", "\\", "%", "=", " ", "\t", "\x7f", "\xff", "$", "/"]) + x[i:]
        if re.search(r"(^|;)\s*(k|q|em)", x):
            x = "echo " + x.replace(";", ",")
        if re.search(r"(^|;)\s*(dl|do)", x):
            # a download goes on until an end record comes
            x = x.split("\n")[0] + "\n:zz\n" * r.randrange(2) + "\n:00000001FF" * 4
        return x


def genfile(rng, kind, sim):
    """an image, symbol, VCD or command file: well formed, damaged, or rubbish"""
    if kind == "f.ihx":
        b = sims.ihex([rng.randrange(256) for _ in range(rng.choice([1, 40, 300]))], rng.choice([0, 0x10, 0x8000, 0xfff0]))
        if rng.random() < .3:
            b = sims.rec_line(rng.randrange(65536), rng.choice([2, 3, 4, 5, 6]), bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 2, 4, 16])))).encode() + b
    elif kind == "f.s19":
        b = b""
        for _ in range(rng.choice([1, 5])):
            d = bytes(rng.randrange(256) for _ in range(rng.randrange(1, 30)))
            t = rng.choice("0123578969")
            a = {"1": 2, "2": 3, "3": 4, "7": 4, "8": 3, "9": 2}.get(t, 2)
            d = rng.randrange(0x10000).to_bytes(a, "big") + d
            n = bytes([len(d) + 1]) + d
            b += b"S" + t.encode() + n.hex().upper().encode() + b"%02X\n" % (~sum(n) & 255)
        b += b"S9030000FC\n"
    elif kind == "f.omf":
        b = b""
        for _ in range(rng.choice([1, 4, 9])):
            t = rng.choice([2, 4, 6, 0x0e, 0x10, 0x12, 0x24, rng.randrange(256)])
            d = bytes(rng.choice([0, 1, 2, 3, rng.randrange(256)]) for _ in range(rng.choice([0, 1, 3, 12, 60])))
            b += bytes([t, (len(d) + 1) & 255, (len(d) + 1) >> 8]) + d + bytes([rng.randrange(256)])
    elif kind == "f.cdb":
        L = []
        for _ in range(rng.choice([1, 8, 30])):
            L.append(rng.choice(["M:m%d", "S:G$main$0$0({2}DF,SV:S),C,0,0", "S:G$v%d$0$0({1}SC:U),E,0,0", "L:G$v%d$0$0:%X", "L:A$m$12:%X", "L:C$m.c$%d$1$1:%X", "F:G$main$0$0({2}DF,SV:S),Z,0,0,0,0,0", "T:Fm$s[({0}S:S$a$0$0({1}SC:U),Z,0,0)]",
                                 "L:XG$main$0$0:%X", "S:Lm.f$x$1$1({2}SI:S),R,0,0,[r6,r7]", "S:G$P0_%d$0$0({1}SX:U),J,0,0", "L:G$P0_0$0$0:8%d", "L:", "S:", ":", "S:G$", "S:G$a$0$0({", "x"]).replace("%d", str(rng.randrange(10))).replace("%X", "%X" % rng.randrange(0x10000)))
        b = ("\n".join(L) + "\n").encode()
    elif kind == "f.vcd":
        sp = sims.SIMS[sim][1]
        L = ["$date", "today", "$end", "$timescale", rng.choice(["1ns", "10 us", "1 ms", "x", "999999fs", "1s"]), "$end", "$scope module x $end"]
        for i in range(rng.choice([0, 1, 3])):
            L.append("$var %s %d %c %s $end" % (rng.choice(["wire", "wire", "reg"]), rng.choice([1, 8, 16, 32, 0, 99, -1]), 33 + i, rng.choice(["%s[0x%x]" % (sp, 0x20 + i), "%s[0x%x].%d" % (sp, 0x30, i), "P1", "nosuch", "%s_0x20" % sp, "%s[" % sp, "3+4", "x1[2]"])))
        L += ["$upscope $end $enddefinitions $end", "#0", "$dumpvars", "0!", "b101 \"", "$end"]
        t = 0
        for _ in range(rng.choice([0, 3, 30])):
            t += rng.choice([0, 1, 100, 1000, -5])
            L += ["#%d" % t, rng.choice(["1!", "0!", "b%s !" % bin(rng.randrange(1 << 16))[2:], "r1.5 !", "x!", "bxz !", "1\"", "b1", "$comment hello $end", "$dumpoff", "z" * rng.choice([1, 70, 300])])]
        b = "\n".join(L).encode() + b"\n"
    elif kind == "f.asc":
        b = bytes(rng.choice(b"01 \n01 \n01x") for _ in range(rng.choice([5, 100, 400])))
    else:
        return None
    k = rng.random()
    if k < .25:
        b = b[:rng.randrange(len(b) + 1)]
    elif k < .5:
        b = bytearray(b)
        for _ in range(rng.choice([1, 3, 10])):
            if b:
                i = rng.randrange(len(b))
                b[i:i + rng.choice([0, 1, 1, 5])] = bytes(rng.choice([0, 10, 13, 0xff, 0x80, 0x3a, 0x20, 0x30, rng.randrange(256)]) for _ in range(rng.choice([0, 1, 1, 4])))
        b = bytes(b)
    elif k < .55:
        b = bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 50, 2000])))
    elif k < .6:
        b = rng.choice([b":" * 400, b"S1" + b"F" * 600, b"\n" * 100, b"0" * 3000, b"A" * 700 + b"\n", b":FF0000"])
    return b


class P:
    ID = "C25"
    RULE = ("Command lines made by a grammar of every console command with right, wrong, missing and extreme parameters, plus images, symbol files, VCD and command files that are well formed, damaged or rubbish, are fed to a console (socket, "
            "terminal, file, -e, -C) in pieces, with failing opens, reads, writes, accepts and vanishing peers; another console must be answered afterwards and the process must not die, loop, or (sanitized build) touch memory it does not own.")
    QUICK_S = 45
    QUICK_N = 3600
    THOROUGH_S = 1200
    VARIANTS = ["plain", "san"]

    def gen(self, rng, tier):
        sim = rng.choice(NAMES + ["s51", "s51", "s51", "stm8", "z80", "z80"])
        typ = rng.choice(sims.SIMS[sim][0])
        g = G(rng, sim, typ)
        lines = [g.line() for _ in range(rng.choice([1, 3, 8, 20, 40]))]
        files = []
        for f in FILES[:7]:
            if rng.random() < .5 or any(f in l for l in lines):
                if f == "f.cmd":
                    b = "\n".join(g.line() for _ in range(rng.choice([1, 4]))).encode("latin1").replace(b'exec', b'echo')
                else:
                    b = genfile(rng, f, sim)
                files.append([f, b.hex()])
        faults = []
        for _ in range(rng.choice([0, 0, 1, 3])):
            faults.append(rng.choice([["open", rng.choice(FILES), rng.choice([2, 13, 24])], ["w", rng.choice(["o1", "o2", "con"]), rng.randrange(1, 30), rng.choice([5, 28, 4, 11])], ["r", rng.choice([f[0] for f in files] or ["x"]), rng.choice([5, 4, 11])],
                                      ["select", rng.randrange(1, 200), 4], ["shortw", rng.choice(["o1", "con"]), rng.randrange(1, 30), 1], ["clock", rng.randrange(1, 100), rng.choice([-10**11, 10**12])], ["drop", "rst"], ["drop", "eof"]]))
        return {"sim": sim, "typ": typ, "lines": lines, "files": files, "faults": faults, "load": rng.sample(FILES[:7], rng.choice([0, 0, 1, 2])), "con": rng.choice(["sock", "sock", "sock", "exec", "tty", "C", "e"]),
                "sizes": rng.choice([0, 0, 1, 7, 100]), "code": [rng.randrange(256) for _ in range(rng.choice([0, 8, 60]))], "san": rng.random() < .4, "_lists": ["lines", "files", "faults", "load", "code"]}

    def shrink(self, case):
        for k, v in (("con", "sock"), ("sizes", 0)):
            if case[k] != v:
                yield dict(case, **{k: v})
        for i, l in enumerate(case["lines"]):
            w = l.split(" ")
            for j in range(len(w)):
                if len(w) > 1:
                    yield dict(case, lines=case["lines"][:i] + [" ".join(w[:j] + w[j + 1:])] + case["lines"][i + 1:])
        for i, f in enumerate(case["files"]):
            b = bytes.fromhex(f[1])
            for n in (2, 4, 8, 16):
                for k in range(n):
                    c = b[:len(b) * k // n] + b[len(b) * (k + 1) // n:]
                    if len(c) < len(b):
                        yield dict(case, files=case["files"][:i] + [[f[0], c.hex()]] + case["files"][i + 1:])

    def check(self, case, ctx):
        sim, typ = case["sim"], case["typ"]
        have = {f[0] for f in case["files"]}
        args = ["-q", "-P", "-b", "-t", typ, "-R", "7"]
        kind = case["con"]
        lines = case["lines"]
        body = "".join(l + "\n" for l in lines).encode("latin1")
        if kind == "C":
            args += ["-C", "cfg.cmd"]
        # consoles are looked at every 500 instructions while the program runs
        first = "expr cperiod=500"
        if kind == "e":
            e = first + "; " + "; ".join(l for l in lines if not re.match(r"\s*(r|em|d.*load)", l) and "\n" not in l)[:3000]
            first = e.replace("\0", "")
            body = b""
        args += ["-e", first]
        s = Scn(sim, args + ["-c", "-", "-Z", str(PORT)] + [f for f in case["load"] if f in have])
        s.raw("limit 8000000")
        for n, b in case["files"]:
            s.file(n, bytes.fromhex(b))
        if kind == "C":
            s.file("cfg.cmd", body)
        s.ep("stdin", "tty" if kind == "tty" else "pipe")
        if kind == "tty":
            s.ep("stdout", "tty")
        if case["code"]:
            s.data("stdin", sims.setmem_cmds(sim, [c % (1 << min(8 * sims.SIMS[sim][4], 18)) for c in case["code"]], sims.SIMS[sim][2]))
        for n in ("o1", "o2"):
            if n not in have:
                s.ep(n, "file")
        ep = "k0"
        con = "stdin" if kind == "tty" else ep
        dropped = [f[1] for f in case["faults"] if f[0] == "drop"]
        if kind in ("sock", "exec"):
            s.client(ep, PORT).polls(ep, 2).connect(ep)
            s.polls(ep, 3)
        if kind == "exec":
            s.file("z.cmd", body)
            s.data(ep, 'exec "z.cmd"\n')
        elif kind in ("sock", "tty"):
            b = body
            n = case["sizes"] or len(b) or 1
            for i in range(0, len(b), n):
                s.data(con, b[i:i + n])
                if case["sizes"]:
                    s.polls(con, 1 + (i // n) % 2)
        if kind in ("sock", "exec"):
            s.polls(ep, 20)
            if dropped:
                s.reset(ep) if dropped[0] == "rst" else s.eof(ep)
        for f in case["faults"]:
            if f[0] == "open":
                s.raw("openfail %s %d" % (f[1], f[2]))
            elif f[0] == "r" and f[1] in have:
                s.err(f[1], f[2])
            elif f[0] in ("w", "shortw"):
                e = f[1] if f[1] != "con" else (ep if kind in ("sock", "exec") else None)
                if e:
                    s.wfault(e, f[2], "err" if f[0] == "w" else "short", f[3])
            elif f[0] in ("select", "clock"):
                s.gfault(f[0], f[1], 0, f[2])
        # the judge: a second client that comes late
        s.client("jd", PORT)
        if any("exec" in l or "non-int" in l for l in lines) or kind == "exec":
            # the caller of exec is not served until the file ends, and a non interactive console while the program runs
            s.polls("jd", 60)
        elif kind == "sock" and not dropped:
            s.wait_consumed("jd", ep)
        elif kind == "tty":
            s.wait_consumed("jd", "stdin")
        s.polls("jd", 30).connect("jd").polls("jd", 5)
        s.data("jd", "stop\n").polls("jd", 10).data("jd", "expr 1234567+1\n").wait_out("jd", "jd", "1234568").polls("jd", 2)
        s.data("jd", "kill\n")
        s.variant = "san" if case["san"] else "plain"
        r = ctx.run(s)
        ctx.mark("con_" + kind)
        ctx.mark("lines", len(lines))
        if case["san"]:
            ctx.mark("sanitized")
            z = c24.sanreport(r)
            if z:
                where = "|".join("%s@%s" % (a, b) for a, b in z[1])
                raise Viol("memory:" + z[0] + ":" + (z[1][0][0] if z[1] else "?"), f"{sim} {typ}: {z[0]} in {where}\n{z[2][:1500]}")
        if r.end == "limit" and max(len(e.out) for e in r.eps.values()) > 2000000:
            ctx.mark("huge_output")     # a listing of a megabyte of memory: long, not endless
            return
        crashcheck(r, sig=sim)
        if r.faults.get("close_ebadf"):
            raise Viol("close", "a descriptor was closed twice")
        o = r.eps["jd"].out.decode("latin1") if "jd" in r.eps else ""
        if "1234568" not in o:
            raise Viol("unresponsive", f"{sim} {typ}: the second console got no answer: {o[-300:]!r}\n{r.text[-300:]!r}")


PROP = P()
