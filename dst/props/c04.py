"""C04: several consoles at once: each gets its own answers only; a vanishing peer harms nobody else; the simulator stays responsive."""
import random, re
from ..core import Viol, Scn, crashcheck
from .. import script, console, sims
from ..console import Model, RAM, TOK

PORT = 7777


class P:
    ID = "C04"
    SIMS = ["s51", "z80"]
    RULE = ("One case = 2..5 consoles (stdin and TCP clients) connecting, sending commands with known answers to disjoint memory, closing, "
            "resetting or quitting at random moments, one of them running and stepping the simulation; the oracle is one model per console.")
    QUICK_S = 40
    THOROUGH_S = 600

    def gen(self, rng, tier):
        cnt = [rng.randrange(1000)]

        def uid():
            cnt[0] += 1
            return (cnt[0] * 7919) % 1000000
        cl = []
        n = rng.choice([1, 2, 3, 4])
        for i in range(n):
            items = [console.gen_item(rng, uid, i == 0, 1) for _ in range(rng.choice([0, 1, 4, 8, 15]))]
            ok = ("expr", "bare", "set", "fill", "cnt", "lead", "cmt", "long") + (("step", "run", "exec") if i == 0 else ())
            items = [x for x in items if x["k"] in ok]
            cl.append({"items": items, "start": [rng.choice("pct"), rng.choice([0, 1, 5, 30, 200])], "sizes": rng.choice([[0], [1], [7, 3], [40], [99]]),
                       "gap": [rng.choice("pc"), rng.choice([1, 1, 2, 5, 20])], "end": rng.choice(["stay", "stay", "eof", "rst", "rst", "quit", "partial"]),
                       "cut": rng.random(), "after": rng.choice([-1, -1, 0]) if i else -1})
        F = []
        for _ in range(rng.choice([0, 0, 1, 3, 6])):
            F.append(rng.choice([["select", rng.randrange(1, 600), 4], ["accept", rng.randrange(1, 4), 103], ["accept", rng.randrange(1, 4), 24],
                                 ["read", rng.randrange(n), rng.randrange(20), 4], ["short", rng.randrange(n), rng.randrange(20), rng.choice([1, 3, 30])],
                                 ["wshort", rng.randrange(n), rng.randrange(1, 60), 1], ["werr", rng.randrange(n), rng.randrange(1, 60), rng.choice([4, 11, 4, 11, 32])],
                                 ["clock", rng.randrange(1, 200), rng.choice([-10**10, 10**11])]]))
        return {"sim": rng.choice(self.SIMS), "clients": cl, "faults": F, "cper": rng.choice([0, 1, 7, 40]), "joins": rng.randrange(1 << 30), "stopper": rng.choice([0, 0, 6, 9, 30]),
                "hog": rng.choice([0, 0, 1, 300]),
                "_lists": ["clients", "faults"]}

    def shrink(self, case):
        for i, c in enumerate(case["clients"]):
            for j in range(len(c["items"])):
                yield dict(case, clients=case["clients"][:i] + [dict(c, items=c["items"][:j] + c["items"][j + 1:])] + case["clients"][i + 1:])
            for k, v in (("sizes", [0]), ("end", "stay"), ("gap", ["c", 1]), ("start", ["p", 0])):
                if c[k] != v:
                    yield dict(case, clients=case["clients"][:i] + [dict(c, **{k: v})] + case["clients"][i + 1:])
        if case.get("hog"):
            yield dict(case, hog=0)
        if case["joins"]:
            yield dict(case, joins=0)

    def epipe(self, case, i):
        return any(f[0] == "werr" and f[1] == i and f[3] == 32 for f in case["faults"])

    def check(self, case, ctx):
        sim = case["sim"]
        if not case["clients"]:
            return
        R = RAM[sim]
        hog = ["-S", "uart=0,raw,in=hog"] if case.get("hog") and sim == "s51" else []
        s = Scn(sim, ["-q", "-P", "-b", "-t", {"s51": "51", "z80": "Z80"}[sim]] + hog + ["-c", "-", "-Z", str(PORT), "-C", "cfg.cmd", "p.ihx"])
        if hog:         # a serial line whose input never ends and which nobody reads
            s.file("hog", b"x" * case["hog"])
            ctx.mark("unread_uart_input")
        s.raw("limit 2000000")
        s.file("p.ihx", sims.ihex([0x80, 0xfe] if sim == "s51" else [0x18, 0xfe], 0))
        base0 = console.BASE
        n = len(case["clients"])
        s.file("cfg.cmd", ("fill %s 0x%x 0x%x 0\nexpr /n cperiod=%d\n" % (R, base0, base0 + 0x100 * n + 0xff, case["cper"])).encode())
        jr = random.Random(case["joins"])
        joins = (lambda i: jr.random() < 0.3) if case["joins"] else (lambda i: False)
        info = []
        aborted = any(f[0] == "accept" and f[2] == 103 for f in case["faults"])
        try:
            for i, c in enumerate(case["clients"]):
                console.BASE = base0 + 0x100 * i
                m = Model(sim)
                for a in range(0x90):
                    m.mem[console.BASE + a] = 0
                files = []
                states = [dict(m.mem)]
                units = []
                for it in c["items"]:
                    us = console.build([it], lambda i: False, m, files, True)
                    for u in us:
                        units.append(u)
                        states.append(dict(m.mem))
                # a run occupies two lines; keep one state per line
                while len(states) < len(units) + 1:
                    states.append(dict(m.mem))
                for f, d in files:
                    s.file(f, d)
                info.append((m, units, states))
        finally:
            console.BASE = base0
        stoppers = 0
        for i, c in enumerate(case["clients"]):
            m, units, states = info[i]
            ep = "c%d" % i
            s.client(ep, PORT)
            s.op(ep, c["start"][0], c["start"][1] * (1000 if c["start"][0] == "t" else 1))
            if 0 <= c["after"] < i:
                s.wait_consumed(ep, "c%d" % c["after"])
            s.connect(ep).wait_out(ep, ep, "software")
            k, total, sent = 0, 0, 0
            chunks, cur, nrun = [], b"", 0
            for u in units:
                cur += u["line"].encode() + b"\n"
                if u.get("stops"):
                    chunks += [cur] + [("wait", "Stop at")] * u["stops"]
                    cur = b""
                elif "run" in u["cmds"]:
                    chunks += [cur, ("calls", 1 + case["joins"] % 60)]
                    cur = b""
                elif "stop" in u["cmds"]:
                    if case.get("stopper"):
                        nrun += 1       # the stop comes from another console
                        cur = b""
                    chunks += [cur, ("wait", "Stop at")]
                    cur = b""
            if c["end"] == "partial":
                cur += b"expr 2000000+1000000"       # no newline, then the peer goes
            elif c["end"] == "quit":
                cur += b"quit\n"
            chunks.append(cur)
            total = sum(len(x) for x in chunks if isinstance(x, bytes))
            limit = int(total * c["cut"]) if c["end"] == "rst" else total
            fl = [f for f in case["faults"] if f[0] in ("read", "short") and f[1] == i]
            for ch in chunks:
                if limit <= 0 and c["end"] == "rst":
                    break
                if isinstance(ch, tuple):
                    if ch[0] == "wait":
                        s.wait_out(ep, ep, ch[1])
                    else:
                        s.calls(ep, ch[1])
                    continue
                ch = ch[:limit]
                limit -= len(ch)
                for piece in console.cut(ch, c["sizes"]):
                    for f in fl:
                        if f[2] == k:
                            s.err(ep, f[3]) if f[0] == "read" else s.short(ep, f[3])
                    s.data(ep, piece)
                    s.op(ep, c["gap"][0], c["gap"][1])
                    k += 1
            if nrun:
                stoppers += 1
                s.client("sp", PORT).polls("sp", 2).connect("sp").wait_out("sp", "sp", "software")
                for _ in range(nrun):
                    s.wait_out("sp", ep, "Simulation started").polls("sp", case["stopper"]).data("sp", "stop\n")
            if c["end"] == "rst":
                s.reset(ep)
            elif c["end"] in ("eof", "partial"):
                s.eof(ep)
        for f in case["faults"]:
            if f[0] in ("select", "accept", "clock"):
                s.gfault(f[0], f[1], 0, f[2])
            elif f[0] == "wshort" and f[1] < n:
                s.wfault("c%d" % f[1], f[2], "short", f[3])
            elif f[0] == "werr" and f[1] < n:
                s.wfault("c%d" % f[1], f[2], "err", f[3])
        s.ep("stdin", "pipe")
        s.data("stdin", "expr 2000000+1888888\n")
        for i in range(n):
            s.wait_consumed("stdin", "c%d" % i)
        s.polls("stdin", 60)
        s.data("stdin", "expr 2000000+1999999\n").wait_out("stdin", "stdout", "3999999")
        for i in range(n):
            s.data("stdin", "dump /h %s 0x%x 0x%x 16\n" % (R, base0 + 0x100 * i, base0 + 0x100 * i + 0x8f))
        s.polls("stdin", 30)
        s.data("stdin", "show console\nkill\n")
        r = ctx.run(s)
        crashcheck(r)
        ctx.mark("clients", n)
        if stoppers:
            ctx.mark("stopped_by_other")
        text = r.text
        sent = text.find("3999999")
        if sent < 0:
            raise Viol("dead", f"the stdin console got no answer any more\n{text[-500:]}")
        got = [int(x) for x in TOK.findall(text[:sent + 9])]
        if got != [3888888, 3999999]:
            raise Viol("stdin", f"the stdin console asked for 3888888 and 3999999 and got {got}")
        d = {}
        for a, x in re.findall(r"0x([0-9a-f]{4}) ((?:[0-9a-f]{2} ){16})", text[sent:]):
            for i, v in enumerate(x.split()):
                d[int(a, 16) + i] = int(v, 16)
        if r.faults.get("close_ebadf"):
            raise Viol("close", "a descriptor was closed twice")
        alive = stoppers + sum(1 for i, c in enumerate(case["clients"]) if c["end"] == "stay" and not self.epipe(case, i))
        cons = len(re.findall(r"^ <[^\n]*,socket,", text[text.find("show console"):], re.M))
        if not any(self.epipe(case, i) for i in range(n)) and cons != alive:
            raise Viol("leak", f"{cons} socket consoles exist, {alive} expected\n{text[-600:]}")
        for i, c in enumerate(case["clients"]):
            m, units, states = info[i]
            e = r.eps["c%d" % i]
            got = [int(x) for x in TOK.findall(e.out.decode("latin1"))]
            whole = c["end"] in ("stay", "quit")
            epipe = self.epipe(case, i)
            foreign = [x for x in got if x not in m.tok]
            if foreign:
                raise Viol("foreign", f"console {i} received answers {foreign} of another console's commands")
            if not e.accepted:
                raise Viol("accept", f"client {i} was never accepted")
            if whole and not epipe and got != m.tok:
                raise Viol("answers", f"console {i} ({c['end']}) got {got}, expected {m.tok}\n{e.out[-400:]!r}")
            if not epipe and got != m.tok[:len(got)]:
                raise Viol("order", f"console {i} ({c['end']}) got {got}, expected a prefix of {m.tok}")
            mem = {a: d.get(a) for a in states[0]} if False else {a: d.get(a) for a in m.mem}
            if whole or c["end"] in ("eof", "partial"):
                if mem != states[-1]:
                    bad = [a for a in mem if mem[a] != states[-1][a]][:4]
                    raise Viol("memory", f"console {i} ({c['end']}): its commands left {[(hex(a), mem[a]) for a in bad]}, expected {[(hex(a), states[-1][a]) for a in bad]}")
            elif mem not in states and not any(u["cmds"] == ["exec"] for u in units):
                raise Viol("prefix", f"console {i} ({c['end']}): memory is not the state after any number of its commands")
            ctx.mark("end_" + c["end"])
            ctx.mark("answers", len(got))


PROP = P()
