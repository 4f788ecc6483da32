"""C05: every byte that arrives at a UART's input is received by the guest program exactly once, in order."""
import random
from ..core import Viol, crashcheck
from .. import script, sims, uart

NLS = [None, None, 0, 0, 0x0a0d, 13, 0x0d0a]


def expected(data, nl):
    if not nl & 0xff:
        return bytes(data)
    seq = bytes(x for x in (nl & 255, nl >> 8 & 255, nl >> 16 & 255) if x)
    out, i = b"", 0
    while i < len(data):
        c = data[i]
        if c in (10, 13):
            out += seq
            if i + 1 < len(data) and data[i + 1] == 23 - c:
                i += 1
        else:
            out += bytes([c])
        i += 1
    return out


def needs_flow(sim, c):
    """whether the guest may be slower than the line (then only flow control keeps the bytes)"""
    b, slow = c["baud"], c["slow"]
    if sim == "s51":
        return (b & 3 == 1 and (slow > 0 or c["isr"] or b & 12)) or slow > 20
    if sim == "stm8":
        return b % 5 in (1, 3) or slow > 20
    if sim in ("m6800", "m6809", "m68hc11", "m68hc12"):
        return b % 5 == 2 or slow > 8
    if sim == "z80":
        return True
    if sim == "p1516":
        return slow > 8
    return False


class P:
    ID = "C05"
    SIMS = list(uart.UARTS)
    RULE = ("One case = one guest program (polling or interrupt driven, fast or slow) receiving a byte stream from a file, FIFO, terminal or TCP peer, "
            "delivered in random pieces and delays, with EINTR/EAGAIN/short reads, while consoles step, stop and continue it; the bytes the "
            "guest stored must be exactly the stream (after the configured newline translation), nothing more.")
    QUICK_S = 40
    THOROUGH_S = 600

    def gen(self, rng, tier):
        sim = rng.choice(self.SIMS)
        typ, uid = rng.choice(uart.UARTS[sim])
        src = rng.choice(["file", "file", "pipe", "pipe", "port", "iport", "tty"])
        raw = rng.random() < 0.6
        nl = rng.choice(NLS)
        n = rng.choice([1, 2, 5, 30, 99, 100, 101, 150, 300])
        style = rng.randrange(3)
        data = []
        for _ in range(n):
            x = rng.randrange(256) if style == 0 else rng.choice([65 + rng.randrange(26), 10, 13, 32]) if style == 1 else 97 + len(data) % 26
            if not raw and x in (0, 255):
                x = 1
            data.append(x)
        sent = 0x7e
        data = [x if x != sent else 0x7d for x in data] + [sent]
        c = {"sim": sim, "typ": typ, "uid": uid, "src": src, "raw": raw, "nl": nl, "data": bytes(data).hex(), "baud": rng.randrange(32),
             "slow": rng.choice([0, 0, 0, 3, 8, 60, 200]), "isr": rng.random() < 0.4, "often": rng.random() < 0.3, "flow": rng.random() < 0.4,
             "cperiod": rng.choice([1, 2, 7, 40, 200, 1000]), "sizes": rng.choice([[1], [1, 2, 3], [7], [99], [100], [0], [13, 1]]),
             "gaps": [rng.choice("pcct"), rng.choice([1, 2, 9, 40])] if rng.random() < 0.6 else None,
             "faults": [[rng.randrange(8), rng.choice(["eintr", "eagain", "short1", "short7"])] for _ in range(rng.choice([0, 1, 3, 8]))],
             "steps": [rng.choice([1, 3, 50, 333, 2000]) for _ in range(rng.choice([0, 0, 1, 4, 10]))], "late": rng.random() < 0.3, "eof": rng.random() < 0.7,
             "_lists": ["faults", "steps"]}
        if needs_flow(sim, c):
            c["flow"] = True
        if c["gaps"] and n * c["gaps"][1] * c["cperiod"] > 300000:
            c["cperiod"] = 20
        if c["flow"] and nl and nl > 255:
            c["nl"] = 13
        return c

    def shrink(self, case):
        for k, v in (("sizes", [0]), ("gaps", None), ("slow", 0), ("isr", False), ("often", False), ("nl", 0), ("late", False), ("src", "file"), ("eof", True)):
            if case[k] != v:
                yield dict(case, **{k: v})
        d = bytes.fromhex(case["data"])
        for k in (len(d) // 2, len(d) // 4, 8, 1):
            if 0 < k < len(d):
                yield dict(case, data=d[k:].hex())
                yield dict(case, data=(d[:-1 - k] + d[-1:]).hex())

    def check(self, case, ctx):
        sim, uid = case["sim"], case["uid"]
        data = bytes.fromhex(case["data"])
        nlcfg = case["nl"]
        nl = nlcfg if nlcfg is not None else (13 if sim == "oisc" else 10)
        exp = expected(data, nl)
        if sim == "stm8" and len(exp) > 900:
            return
        fillv = next(v for v in range(1, 256) if v not in exp[-64:] and v not in exp[:64] and v != data[-1])
        p = uart.prog(sim, uid, "rx", sent=data[-1], baud=case["baud"], slow=case["slow"], isr=case["isr"])
        files, args, cmds = uart.load(sim, p)
        sp, B = uart.buf(sim)
        v = "%s%d_" % ("pc16550" if sim == "z80" else "uart", uid)
        src = case["src"]
        opt = "uart=%d" % uid
        rawopt = ",raw" if case["raw"] else ""
        pre = ["fill %s 0x%x 0x%x 0x%x" % (sp, B, B + len(exp) + 31, fillv), "expr cperiod=%d" % case["cperiod"], "expr %sesc_char=0" % v]
        if nlcfg is not None:
            pre.append("expr %snl=%d" % (v, nlcfg))
        if case["flow"]:
            pre.append("expr %sflowctrl=1" % v)
        if case["often"]:
            pre.append("expr %scheck_often=1" % v)
        cmds = pre + cmds
        if src in ("file", "pipe", "tty"):
            if case["late"] or src == "tty":
                if case["raw"]:
                    cmds.append('set hardware %s raw 1' % p["hw"])
                cmds.append('set hardware %s in "u.in"' % p["hw"])
            else:
                args = ["-S", opt + ",in=u.in" + rawopt] + args
        else:
            args = ["-S", opt + ",%s=5555" % src + rawopt] + args
        cmds += ["expr 1234567+1", "break 0x%x" % p["lab"]["done"]]
        for i, k in enumerate(case["steps"]):
            cmds += ["step %d" % k] + (["info hardware %s" % p["hw"]] if i % 3 == 1 else [])
        ngap = (len(data) // max(1, min(case["sizes"]) or len(data)) + 1) * (case["gaps"][1] if case["gaps"] else 1)
        bound = 20000 + len(exp) * 3000 + 3 * (ngap + len(data) + 50) * (case["cperiod"] + 1)
        cmds += ["step %d" % bound, "delete", "step 6000", "dump /h %s 0x%x 0x%x 16" % (sp, B, B + len(exp) + 31)]
        ep = "u.in" if src in ("file", "pipe", "tty") else "peer"

        def extra(s):
            if src == "file":
                s.file("u.in", data)
                for k, f in sorted(case["faults"]):
                    s.calls(ep, k * 9 + 1)
                    s.short(ep, int(f[5:])) if f[0] == "s" else s.err(ep, 4)
                return
            if ep == "u.in":
                s.ep("u.in", src)
            else:
                s.client("peer", 5555)
                s.wait_out("peer", "stdout", "1234568")
                s.connect("peer")
            if src == "tty":
                s.wait_out("u.in", "stdout", "1234568")
            F = sorted(case["faults"])
            i = k = 0
            while i < len(data):
                n = case["sizes"][k % len(case["sizes"])] or len(data)
                g = case["gaps"]
                if g and k:
                    ops = {"p": s.polls, "c": s.calls, "t": lambda e, x: s.time(e, x * 1000)}[g[0]]
                    ops(ep, g[1])
                for f in F:
                    if f[0] == k:
                        if f[1] == "eintr":
                            s.err(ep, 4)
                        elif f[1] == "eagain":
                            s.err(ep, 11)
                        else:
                            s.short(ep, int(f[1][5:]))
                        ctx.mark("rxfault_" + f[1])
                s.data(ep, data[i:i + n])
                i += n
                k += 1
            if case["eof"] and src != "file":
                s.eof(ep)
        r, o = script.run(ctx, sim, case["typ"], cmds, args, files, extra=extra, must_end=False, limit=20000000)
        crashcheck(r)
        ctx.mark("src_" + src)
        ctx.mark("sim_" + sim)
        if o[-1] is None:
            raise Viol("script", "commands were not executed: " + r.text[-300:])
        d = script.parse_dump(o[-1])
        got = bytes(d.get(B + i, -1) & 255 for i in range(len(exp) + 32))
        ctx.mark("bytes", len(exp))
        want = exp + bytes([fillv]) * 32
        st = script.stop_of(o[-4])
        if got != want:
            k = next(i for i in range(len(want)) if got[i] != want[i])
            if k >= len(exp):
                raise Viol("rx:extra", "%s uart %d: after the %d bytes of the stream the guest received more: %s" % (sim, uid, len(exp), got[len(exp):].hex()))
            if st[1] != 104:
                raise Viol("rx:lost", "%s uart %d: after %d instructions the guest has still not received all of the %d byte stream" % (sim, uid, bound, len(exp)))
            raise Viol("rx:wrong", "%s uart %d: byte %d of %d is 0x%02x, sent 0x%02x (received ..%s.. sent ..%s..)" % (
                sim, uid, k, len(exp), got[k], want[k], got[max(0, k - 3):k + 6].hex(), want[max(0, k - 3):k + 6].hex()))


PROP = P()
