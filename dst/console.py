"""Workloads for consoles: items with an executable model, keystroke scripts for the line editor, deliveries in pieces."""
import re

RAM = {"s51": "xram", "z80": "rom", "mos6502": "rom", "m6809": "rom", "i8085": "rom"}
BASE = 0x1000
TOK = re.compile(r"(3\d{6})(?=\r?\n)")


class Model:
    def __init__(self, sim):
        self.mem, self.tok, self.files, self.steps, self.sim, self.hist = {}, [], {}, 0, sim, []


def gen_item(rng, uid, interactive, depth=0):
    k = rng.choice(["expr", "expr", "bare", "set", "set", "fill", "cnt", "cmt", "redir", "long", "step", "empty"]
                   + (["exec"] if depth < 2 else []) + (["hist", "run", "lead"] if interactive else []))
    it = {"k": k}
    if k in ("expr", "bare", "redir", "long", "lead"):
        it["n"] = uid()
    if k == "redir":
        it["f"] = "o%d.txt" % rng.randrange(3)
        it["a"] = rng.random() < 0.4
    if k == "long":
        it["pad"] = rng.choice([60, 99, 100, 101, 255, 500, 900, 950, 985])
    if k == "set":
        it["a"] = rng.randrange(48)
        it["v"] = [rng.randrange(256) for _ in range(rng.choice([1, 1, 2, 5, 16]))]
    if k == "fill":
        it["a"] = rng.randrange(48)
        it["b"] = it["a"] + rng.randrange(16)
        it["v"] = rng.randrange(256)
    if k == "cnt":
        it["v"] = rng.randrange(200)
    if k == "step":
        it["n"] = rng.choice([1, 2, 7, 50])
    if k == "hist":
        it["n"] = rng.choice([1, 1, 2, 5])
    if k == "exec":
        it["items"] = [gen_item(rng, uid, False, depth + 1) for _ in range(rng.randrange(1, 6))]
        it["f"] = "sub%d.cmd" % uid()
        it["nl"] = rng.random() < 0.7       # last line of the file terminated
    return it


def text_of(it, m):
    """command text of one item; applies its effect to the model m (None: text only)"""
    k = it["k"]
    R = "xram"
    if m is not None:
        R = RAM[m.sim]
    t = None
    if k in ("expr", "bare", "redir", "long", "lead"):
        n = it["n"]
        e = "2000000+%d" % (1000000 + n)
        if k == "bare":
            t = e
        elif k == "redir":
            t = "dump /h %s 0x%x 0x%x 1 %s\"%s\"" % (R, BASE + n % 48, BASE + n % 48, ">>" if it["a"] else ">", it["f"])
        elif k == "long":
            t = "expr " + "0+" * (it["pad"] // 2) + e
        elif k == "lead":
            t = "  \texpr , " + e
        else:
            t = "expr " + e
        if m is not None:
            if k == "redir":
                old = m.files.get(it["f"], b"") if it["a"] else b""
                v = m.mem[BASE + n % 48]
                m.files[it["f"]] = old + b"0x%04x %02x %c\n" % (BASE + n % 48, v, v if 32 <= v < 127 else 46)
            else:
                m.tok.append(3000000 + n)
    elif k == "set":
        t = "set mem %s 0x%x %s" % (R, BASE + it["a"], " ".join("%d" % v for v in it["v"]))
        if m is not None:
            for i, v in enumerate(it["v"]):
                m.mem[BASE + it["a"] + i] = v
    elif k == "fill":
        t = "fill %s 0x%x 0x%x %d" % (R, BASE + it["a"], BASE + it["b"], it["v"])
        if m is not None:
            for a in range(it["a"], it["b"] + 1):
                m.mem[BASE + a] = it["v"]
    elif k == "cnt":
        c = BASE + 0x80
        t = "expr /n %s[0x%x]=%s[0x%x]*3+%d" % (R, c, R, c, it["v"])
        if m is not None:
            m.mem[c] = (m.mem[c] * 3 + it["v"]) & 0xff
    elif k == "cmt":
        t = "# expr 2000000+1000000"
    elif k == "empty":
        t = ""
    elif k == "step":
        t = "step %d" % it["n"]
        if m is not None:
            m.steps += it["n"]
    elif k == "exec":
        t = "exec \"%s\"" % it["f"]
    return t


NOJOIN = ("long", "exec", "step", "run", "hist", "empty", "cmt")


def nsteps(it):
    return sum(1 if x["k"] == "step" else nsteps(x) for x in it.get("items", []))


def build(items, rng_joins, m, files, interactive, rng_period=None):
    """-> list of units {line, item kinds}; executes the model in order; fills files for exec items"""
    units = []
    i = 0
    while i < len(items):
        it = items[i]
        group = [it]
        if it["k"] not in NOJOIN:
            while i + 1 < len(items) and items[i + 1]["k"] not in NOJOIN and rng_joins(i):
                i += 1
                group.append(items[i])
        i += 1
        k = it["k"]
        if k == "empty" and interactive and units and units[-1]["cmds"][-1] not in ("expr", "bare", "set", "cnt", "lead"):
            continue            # an empty line repeats some commands on interactive consoles
        if k == "hist":
            if not m.hist:
                continue
            src = m.hist[-min(it["n"], len(m.hist))]
            if not all(g["k"] in SAFEHIST for g in src[1]):
                continue
            for g in src[1]:
                text_of(g, m)
            m.hist.append(src)
            units.append({"k": "hist", "n": it["n"], "line": src[0], "cmds": [g["k"] for g in src[1]]})
            continue
        if k == "run":
            # the line typed while the simulation runs stops it and is not executed
            if rng_period is not None:
                units.append({"k": "line", "line": "expr /n cperiod=%d" % rng_period(), "cmds": ["cper"]})
                m.hist.append((units[-1]["line"], [{"k": "cper"}]))
            units.append({"k": "line", "line": "run", "cmds": ["run"]})
            units.append({"k": "line", "line": "set mem %s 0x%x 0xee" % (RAM[m.sim], BASE), "cmds": ["stop"]})
            m.hist.append((units[-2]["line"], [{"k": "run"}]))
            m.hist.append((units[-1]["line"], [{"k": "set", "a": 0, "v": [0xee]}]))
            continue
        parts = [text_of(g, m) for g in group]
        line = "; ".join(parts)
        if k == "exec":
            sub = build(it["items"], rng_joins, m, files, False)
            d = "\n".join(u["line"] for u in sub) + ("\n" if it["nl"] and sub else "")
            files.append((it["f"], d.encode()))
        units.append({"k": "line", "line": line, "cmds": [g["k"] for g in group], "stops": nsteps(it) + (k == "step")})
        if line and interactive:
            m.hist.append((line, group))
    return units


SAFEHIST = ("expr", "bare", "set", "fill", "cnt", "lead", "redir")


def keystrokes(rng, line):
    """A key sequence which leaves exactly `line` in the editor (without Enter), through random editing."""
    buf, cur, out = [], 0, b""

    def ins(ch):
        nonlocal cur, out
        buf.insert(cur, ch)
        cur += 1
        out += ch.encode("latin1")

    def left():
        nonlocal cur, out
        out += b"\x1b[D"
        cur = max(0, cur - 1)

    def right():
        nonlocal cur, out
        out += b"\x1b[C"
        cur = min(len(buf), cur + 1)
    if rng.random() < 0.3:
        for c in "garbage"[:rng.randrange(1, 8)]:
            ins(c)
        if rng.random() < 0.5:
            out += b"\x0b"          # ^K clears the line
            buf, cur = [], 0
        else:
            while buf:
                if cur and rng.random() < 0.7:
                    out += rng.choice([b"\x08", b"\x7f"])
                    cur -= 1
                    del buf[cur]
                elif cur < len(buf):
                    out += b"\x1b[3~"
                    del buf[cur]
                else:
                    left()
    i = 0
    while i < len(line):
        r = rng.random()
        if r < 0.04:                  # typo, corrected
            ins("x")
            out += rng.choice([b"\x08", b"\x7f"])
            cur -= 1
            del buf[cur]
        elif r < 0.06 and i + 1 < len(line):    # two characters typed in the wrong order
            ins(line[i + 1])
            left()
            ins(line[i])
            right()
            i += 2
            continue
        elif r < 0.08:                # visit home and come back
            out += rng.choice([b"\x01", b"\x1b[H", b"\x1b[1~"])
            cur = 0
            if rng.random() < 0.3:
                ins("z")
                left()
                out += b"\x1b[3~"
                del buf[cur]
            out += rng.choice([b"\x05", b"\x1b[F", b"\x1b[4~"])
            cur = len(buf)
        elif r < 0.10:
            out += rng.choice([b"\x1bOP", b"\x1b[E", b"\x1b[5~", b"\x1b[24~", b"\x1b[2~"])
        elif r < 0.12:
            left()
            right() if buf else None
        ins(line[i])
        i += 1
    assert "".join(buf) == line, (buf, line)
    return out


def cut(b, sizes, rng=None):
    """split bytes by the cyclic list of sizes"""
    out, i, k = [], 0, 0
    while i < len(b):
        n = sizes[k % len(sizes)] or len(b)
        out.append(b[i:i + n])
        i += n
        k += 1
    return out
