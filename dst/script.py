"""Command scripts: run a list of console commands in order, get each command's output back."""
import re
from .core import Scn, Viol, crashcheck

HOSTLINE = re.compile(r"^(Runtime: |Host usage: |Simulated \d+ ticks).*$\n?", re.M)


def scn(sim, typ, cmds, args=(), files=(), quiet=True, limit=3000000, chunk=0, hold=0):
    """exec "x.cmd" from a pipe console: commands run strictly one after the other, each echoed before its output."""
    a = (["-q"] if quiet else []) + ["-P", "-b"] + (["-t", typ] if typ else []) + list(args)
    s = Scn(sim, a)
    s.raw("limit %d" % limit)
    s.file("x.cmd", ("".join(c if c.endswith("\n") else c + "\n" for c in cmds)).encode("latin1"))
    for n, d in files:
        s.file(n, d)
    s.ep("stdin", "pipe")
    if hold:
        s.polls("stdin", hold)
    L = 'exec "x.cmd"\n'
    if chunk:
        for i in range(0, len(L), chunk):
            s.data("stdin", L[i:i + chunk]).polls("stdin", 1 + i % 3)
    else:
        s.data("stdin", L)
    return s


def outputs(text, cmds):
    """Split console text at the echoes of cmds; -> list of outputs (None once a command's echo is not found)."""
    out, pos = [], text.find('exec "x.cmd"\n')
    pos = 0 if pos < 0 else pos + len('exec "x.cmd"\n')
    marks = []
    for c in cmds:
        c = c.rstrip("\n") + "\n"
        while True:
            i = text.find(c, pos)
            if i < 0 or i == 0 or text[i - 1] in "\n\0":
                break
            pos = i + 1
        if i < 0:
            marks.append(None)
            continue
        marks.append((i, i + len(c)))
        pos = i + len(c)
    for k, m in enumerate(marks):
        if m is None:
            out.append(None)
            continue
        nxt = len(text)
        for m2 in marks[k + 1:]:
            if m2:
                nxt = m2[0]
                break
        out.append(text[m[1]:nxt])
    return out


def run(ctx, sim, typ, cmds, args=(), files=(), perturb=0, extra=None, must_end=True, limit=3000000, variant="plain",
        chunk=0, hold=0):
    """Run cmds + kill; returns (Res, [output per command])."""
    cm = list(cmds) + ["kill"]
    s = scn(sim, typ, cm, args, files, limit=limit, chunk=chunk, hold=hold)
    s.perturb = perturb
    s.variant = variant
    if extra:
        extra(s)
    r = ctx.run(s)
    if must_end:
        crashcheck(r)
    return r, outputs(r.text, cm)[:-1]


def scrub(t):
    return HOSTLINE.sub("", t)


def parse_dump(t):
    """'dump /h' output -> {addr: value}"""
    d = {}
    for line in t.replace("\r", "").split("\n"):
        m = re.match(r"^\0*0x([0-9a-f]+) ((?:[0-9a-f]+ )+)", line)
        if m:
            a = int(m.group(1), 16)
            for i, x in enumerate(m.group(2).split()):
                d[a + i] = int(x, 16)
    return d


def stop_of(t):
    """-> (pc, reason number) of the last stop message, or None"""
    m = re.findall(r"Stop at 0x([0-9a-f]+): \((\d+)\)", t)
    return (int(m[-1][0], 16), int(m[-1][1])) if m else None


def counters(t):
    """parse 'state' output"""
    d = {}
    m = re.search(r"CPU state= (\S+) PC= 0x([0-9a-f]+)", t)
    if m:
        d["cpu"], d["pc"] = m.group(1), int(m.group(2), 16)
    m = re.search(r"Operation since last reset= (\d+) vclks", t)
    if m:
        d["vclk"] = int(m.group(1))
    m = re.search(r"Inst= (\d+) Fetch= (\d+) Read= (\d+) Write= (\d+)", t)
    if m:
        d["inst"], d["fetch"], d["read"], d["write"] = map(int, m.groups())
    for k, w in (("total", "Total time since last reset"), ("isr", "Time in isr "), ("idle", "Time in idle")):
        m = re.search(re.escape(w) + r"= ([0-9.e+-]+) sec \((\d+) clks\)", t)
        if m:
            d[k] = int(m.group(2))
            d[k + "_s"] = float(m.group(1))
    m = re.search(r"Most value of stack pointer= 0x([0-9a-f]+)", t)
    if m:
        d["spmax"] = int(m.group(1), 16)
    m = re.search(r"Simulation: (\w+)", t)
    if m:
        d["sim"] = m.group(1)
    return d
