"""C03: a console executes exactly the commands of its input, once, in order, whole answers, however the bytes travel."""
import random, re
from ..core import Viol, Scn, crashcheck
from .. import script, console
from ..console import Model, RAM, BASE, TOK

EN = {"pipe": "stdin", "tty": "stdin", "sock": "cli", "cfile": "cons.cmd"}


class P:
    ID = "C03"
    SIMS = ["s51", "z80"]
    RULE = ("One case = one list of commands with an executable model (results of unique sums, memory writes, order-sensitive counters, "
            "redirections, steps, nested command files) delivered to one console (pipe, tty with line editing, TCP, command file, "
            "configuration file, -e), cut, delayed and faulted at random; answers, order, files, memory and instruction count must be the model's.")
    QUICK_S = 40
    THOROUGH_S = 600

    def gen(self, rng, tier):
        tr = rng.choice(["pipe", "tty", "tty", "sock", "sock", "cfile"])
        cnt = [rng.randrange(1000)]

        def uid():
            cnt[0] += 1
            return (cnt[0] * 7919) % 1000000
        inter = tr in ("tty", "sock")
        items = [console.gen_item(rng, uid, inter) for _ in range(rng.choice([1, 3, 6, 12, 25]))]
        F = []
        for _ in range(rng.choice([0, 0, 1, 3, 8])):
            F.append(rng.choice([["read", rng.randrange(60), 4], ["read", rng.randrange(60), 4], ["short", rng.randrange(60), rng.choice([1, 2, 5, 50])],
                                 ["select", rng.randrange(1, 400), 4], ["sleep", rng.randrange(1, 20), 0], ["clock", rng.randrange(1, 200), rng.choice([-10**10, 10**11])],
                                 ["wshort", rng.randrange(1, 200), rng.choice([1, 1, 3])], ["weintr", rng.randrange(1, 200), 4], ["weagain", rng.randrange(1, 200), 11]]))
        return {"sim": rng.choice(self.SIMS), "tr": tr, "items": items, "joins": rng.randrange(1 << 30), "eol": rng.choice(["\n", "\n", "\r", "\r\n"]),
                "edit": rng.choice([0, rng.randrange(1, 1 << 30)]) if inter else 0, "sizes": rng.choice([[0], [1], [2, 7], [99], [100], [3], [40, 1, 60], [13]]),
                "gaps": [[rng.choice("pcct"), rng.choice([1, 2, 3, 9, 40])] for _ in range(rng.choice([0, 1, 4]))], "faults": F,
                "cfg": [console.gen_item(rng, uid, False, 2) for _ in range(rng.choice([0, 0, 2]))],
                "e": [console.gen_item(rng, uid, False, 2) for _ in range(rng.choice([0, 0, 2]))],
                "telnet": rng.random() < 0.4, "noeol": rng.random() < 0.3, "_lists": ["items", "faults", "gaps", "cfg", "e"]}

    def shrink(self, case):
        for k, v in (("sizes", [0]), ("edit", 0), ("eol", "\n"), ("joins", 0), ("telnet", False), ("noeol", False)):
            if case[k] != v:
                yield dict(case, **{k: v})
        for i, it in enumerate(case["items"]):
            if it["k"] == "exec":
                for j in range(len(it["items"])):
                    yield dict(case, items=case["items"][:i] + [dict(it, items=it["items"][:j] + it["items"][j + 1:])] + case["items"][i + 1:])

    def check(self, case, ctx):
        sim, tr = case["sim"], case["tr"]
        inter = tr in ("tty", "sock")
        R = RAM[sim]
        files = []
        jr = random.Random(case["joins"])
        joins = (lambda i: jr.random() < 0.3) if case["joins"] else (lambda i: False)
        m = Model(sim)
        init = [0] * 0x90
        for i, v in enumerate(init):
            m.mem[BASE + i] = v
        ok = ("expr", "bare", "set", "fill", "cnt", "cmt", "lead")
        cfg = [x for x in case["cfg"] if x["k"] in ok]
        est = [x for x in case["e"] if x["k"] in ok and x["k"] not in ("cmt", "lead")]
        mem0 = "fill %s 0x%x 0x%x 0" % (R, BASE, BASE + 0x8f)
        cfgtok = None
        args = ["-q", "-P", "-b", "-t", {"s51": "51", "z80": "Z80"}[sim]]
        m.tok = []
        cu = console.build(cfg, joins, m, files, False)
        cfgtok, m.tok = m.tok, []
        files.append(("cfg.cmd", (mem0 + "\n" + "".join(u["line"] + "\n" for u in cu)).encode()))
        args += ["-C", "cfg.cmd"]
        eu = console.build(est, lambda i: True, m, files, False)
        if eu:
            args += ["-e", eu[0]["line"]]
        items = case["items"]
        units = console.build(items, joins, m, files, inter, lambda: jr.choice([0, 1, 5, 50]))
        ran = any("run" in u["cmds"] for u in units)
        R_fin = ["expr 2000000+1999999", "dump /h %s 0x%x 0x%x 16" % (R, BASE, BASE + 0x8f), "state", "kill"]
        m.tok.append(3999999)
        s = Scn(sim, args)
        code = {"s51": bytes([0x80, 0xfe]), "z80": bytes([0x18, 0xfe])}[sim]
        from .. import sims
        s.file("p.ihx", sims.ihex(list(code), 0))
        s.args.append("p.ihx")
        s.raw("limit 3000000")
        for n, d in files:
            s.file(n, d)
        ep = EN[tr]
        if tr == "pipe":
            s.ep("stdin", "pipe")
        elif tr == "tty":
            s.ep("stdin", "tty").ep("stdout", "tty")
        elif tr == "sock":
            s.args[:0] = ["-Z", "7777"]
            s.client("cli", 7777).connect("cli")
        outep = "cli" if tr == "sock" else "stdout"
        for f in case["faults"]:
            if f[0] == "select":
                s.gfault("select", f[1], 0, 4)
            elif f[0] in ("sleep", "clock"):
                s.gfault(f[0], f[1], 0, f[2])
            elif f[0] == "wshort":
                s.wfault(outep, f[1], "short", f[2])
            elif f[0] in ("weintr", "weagain"):
                s.wfault(outep, f[1], "err", f[2])
        eol = case["eol"]
        er = random.Random(case["edit"])
        chunks = []         # (bytes | ("wait", pat))
        cur = b""
        if tr == "sock" and case["telnet"]:
            cur += b"\xff\xfd\x01\xff\xfd\x03"
        for u in units:
            if u["k"] == "hist":
                b = b"\x1b[A" * u["n"]
            else:
                b = u["line"].encode()
                if case["edit"] and inter and len(b) < 400:
                    b = console.keystrokes(er, u["line"])
                if tr == "sock" and case["telnet"] and er.random() < 0.2:
                    b += b"\xff\xfb\x1f"
            cur += b + eol.encode()
            if inter and u.get("stops"):
                chunks.append(cur)
                chunks.extend([("wait", "Stop at")] * u["stops"])
                cur = b""
            if "run" in u["cmds"]:
                chunks.append(cur)
                chunks.append(("calls", case["joins"] % 97 if case["joins"] else 3))
                cur = b""
            if "stop" in u["cmds"]:
                chunks.append(cur)
                chunks.append(("wait", "Stop at"))
                cur = b""
        cur += (R_fin[0] + eol).encode()
        chunks.append(cur)
        if inter or tr == "pipe":
            chunks.append(("wait", "3999999"))
        for c in R_fin[1:]:
            chunks.append((c + eol).encode())
        if case["noeol"] and not inter:
            chunks[-1] = chunks[-1].rstrip(b"\r\n")
        if tr == "cfile":
            s.args[:0] = ["-c", "cons.cmd"]
            data = b"".join(c for c in chunks if isinstance(c, bytes))
            s.file("cons.cmd", data)
            nread = 0
            for f in case["faults"]:
                if f[0] == "read":
                    s.err("cons.cmd", 4)
                elif f[0] == "short":
                    s.short("cons.cmd", f[2]).calls("cons.cmd", f[1])
        else:
            faults = [f for f in case["faults"] if f[0] in ("read", "short")]
            k = 0
            for c in chunks:
                if isinstance(c, tuple):
                    if c[0] == "wait":
                        s.wait_out(ep, outep, c[1])
                    else:
                        s.calls(ep, c[1])
                    continue
                for piece in console.cut(c, case["sizes"]):
                    for f in faults:
                        if f[1] == k:
                            s.err(ep, f[2]) if f[0] == "read" else s.short(ep, f[2])
                    s.data(ep, piece)
                    if case["gaps"]:
                        g = case["gaps"][k % len(case["gaps"])]
                        s.op(ep, g[0], g[1] * (50000 if g[0] == "t" else 1))
                    k += 1
            if case["noeol"] and tr == "pipe":
                s.eof(ep)
        r = ctx.run(s)
        ctx.mark("tr_" + tr)
        crashcheck(r)
        text = r.eps[outep].out.decode("latin1")
        got = [int(x) for x in TOK.findall(r.eps["stderr"].out.decode("latin1"))]
        if got != cfgtok:
            raise Viol("cfg", f"configuration file: answers {got}, expected {cfgtok}")
        if tr == "sock":
            etok = len(eu) and sum(1 for x in est if x["k"] in ("expr", "bare"))
            ge = [int(x) for x in TOK.findall(r.eps["stdout"].out.decode("latin1"))]
            if ge != m.tok[:etok or 0]:
                raise Viol("startup", f"-e answers {ge}, expected {m.tok[:etok or 0]}")
            m.tok = m.tok[etok or 0:]
        sent = text.find("3999999")
        got = [int(x) for x in TOK.findall(text if sent < 0 else text[:sent + 9])]
        if got != m.tok:
            i = 0
            while i < min(len(got), len(m.tok)) and got[i] == m.tok[i]:
                i += 1
            raise Viol("answers:" + tr, f"{tr}: answer {i} of the command stream: got {got[i:i+4]}, expected {m.tok[i:i+4]} "
                       f"({len(got)} answers, {len(m.tok)} expected)\n{text[-600:]}")
        d = {}
        for a, x in re.findall(r"0x([0-9a-f]{4}) ((?:[0-9a-f]{2} ){16})", text[text.rfind("3999999"):]):
            for i, v in enumerate(x.split()):
                d[int(a, 16) + i] = int(v, 16)
        for a in sorted(m.mem):
            if d.get(a) != m.mem[a]:
                raise Viol("memory:" + tr, f"{tr}: {R}[0x{a:x}]={d.get(a)} after the command stream, expected {m.mem[a]}\n{text[-600:]}")
        if not ran:
            c = script.counters(text)
            if c.get("inst") != m.steps:
                raise Viol("steps:" + tr, f"{tr}: {c.get('inst')} instructions executed, the steps add up to {m.steps}")
        for f, d in m.files.items():
            e = r.eps.get(f)
            data = e.out if e else None
            if data != d:
                raise Viol("redirect:" + tr, f"{tr}: redirected answers in {f}: {data!r}, expected {d!r}")
        ctx.mark("answers", len(m.tok))
        ctx.mark("lines", len(units))


PROP = P()
