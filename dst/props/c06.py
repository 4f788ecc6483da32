"""C06: every byte the guest sends through a UART reaches the output exactly once, in order, under any write faults."""
import re
from ..core import Viol, crashcheck
from .. import script, uart


def on_wire(b, dst):
    if dst not in ("port", "oport"):
        return b
    return b"".join(b"\r\n" if x in (10, 13) else bytes([x]) for x in b)


class P:
    ID = "C06"
    SIMS = list(uart.UARTS)
    RULE = ("One case = one guest program sending a table through a UART to a file, FIFO, terminal or TCP peer that accepts the bytes with short "
            "writes, EINTR, EAGAIN and interrupted selects, while the run is cut into steps and stops; what arrives must be exactly the table.")
    QUICK_S = 30
    THOROUGH_S = 500

    def gen(self, rng, tier):
        sim = rng.choice(self.SIMS)
        typ, uid = rng.choice(uart.UARTS[sim])
        n = rng.choice([1, 2, 3, 20, 60, 150, 300])
        style = rng.randrange(3)
        data = [rng.randrange(256) if style == 0 else rng.choice([65 + rng.randrange(26), 10, 13, 32]) if style == 1 else 97 + i % 26 for i in range(n)]
        F = []
        for _ in range(rng.choice([0, 1, 3, 10, 25])):
            F.append(rng.choice([["w", rng.randrange(1, 2 * n + 4), "err", rng.choice([4, 11])], ["w", rng.randrange(1, 2 * n + 4), "short", 1],
                                 ["g", "select", rng.randrange(1, 6 * n + 30), 4]]))
        dst = rng.choice(["file", "file", "pipe", "tty", "port", "oport"])
        raw = rng.random() < 0.5
        echo = rng.random() < 0.35
        if echo:        # full duplex: the guest sends back what it receives (with flow control)
            if not raw:
                data = [1 if x in (0, 255) else x for x in data]
            data = [0x7d if x == 0x7e else x for x in data] + [0x7e]
        return {"sim": sim, "typ": typ, "uid": uid, "echo": echo, "sizes": rng.choice([[1], [1, 2, 3], [7], [0], [99]]), "dst": dst, "raw": raw,
                "late": rng.random() < 0.3, "data": bytes(data).hex(), "baud": rng.randrange(32), "slow": rng.choice([0, 0, 3, 40, 200]),
                "cperiod": rng.choice([1, 7, 40, 1000]), "steps": [rng.choice([1, 3, 50, 333, 2000]) for _ in range(rng.choice([0, 0, 1, 4, 10]))],
                "rx": rng.choice([0, 0, 1]), "faults": F, "_lists": ["faults", "steps"]}

    def shrink(self, case):
        for k, v in (("slow", 0), ("rx", 0), ("late", False), ("dst", "file"), ("baud", 0)):
            if case[k] != v:
                yield dict(case, **{k: v})
        d = bytes.fromhex(case["data"])
        for k in (len(d) // 2, len(d) // 4, 8, 1):
            if 0 < k < len(d):
                yield dict(case, data=d[k:].hex())
                yield dict(case, data=(d[:-1 - k] + d[-1:]).hex())

    def check(self, case, ctx):
        sim, uid, dst = case["sim"], case["uid"], case["dst"]
        data = bytes.fromhex(case["data"])
        echo = case.get("echo")
        if echo:
            p = uart.prog(sim, uid, "echo", sent=data[-1], baud=case["baud"], slow=case["slow"])
            files, args, cmds = uart.load(sim, p)
        else:
            p = uart.prog(sim, uid, "tx", table=data, baud=case["baud"], slow=case["slow"])
            files, args, cmds = uart.load(sim, p, data)
        opt = "uart=%d" % uid + (",raw" if case["raw"] else "")
        cmds = ["expr cperiod=%d" % case["cperiod"]] + cmds
        if echo:
            v = "%s%d_" % ("pc16550" if sim == "z80" else "uart", uid)
            cmds = ["expr %sesc_char=0" % v, "expr %snl=0" % v, "expr %sflowctrl=1" % v] + cmds
            if dst != "port":
                opt += ",in=u.in"
                files = files + [("u.in", data)]
            ctx.mark("echo")
        elif case["rx"]:
            opt += ",in=noise"
            files = files + [("noise", bytes(range(97, 123)) * 9)]
        banner = False
        if dst in ("file", "pipe", "tty"):
            if case["late"]:
                args = ["-S", opt] + args
                cmds.append('set hardware %s out "u.out"' % p["hw"])
                banner = dst != "file"
            else:
                args = ["-S", opt + ",out=u.out"] + args
        else:
            args = ["-S", opt + ",%s=5555" % dst] + args
            banner = True
        if echo:
            cmds.append("expr 1234567+1")
        cmds += ["break 0x%x" % p["lab"]["done"]]
        for i, k in enumerate(case["steps"]):
            cmds += ["step %d" % k] + (["info hardware %s" % p["hw"]] if i % 3 == 1 else [])
        bound = 20000 + len(data) * (3000 if not echo else 5000 + 5 * case["cperiod"])
        cmds += ["step %d" % bound, "delete", "step 8000"]
        ep = "u.out" if dst in ("file", "pipe", "tty") else "peer"

        def extra(s):
            if ep == "peer":
                s.client("peer", 5555)
                if echo and dst == "port":
                    s.wait_out("peer", "stdout", "1234568")
                s.connect("peer")
                if echo and dst == "port":
                    i = k = 0
                    while i < len(data):
                        n = case["sizes"][k % len(case["sizes"])] or len(data)
                        s.data(ep, data[i:i + n])
                        i, k = i + n, k + 1
            elif dst != "file":
                s.ep("u.out", dst)
            for f in case["faults"]:
                if f[0] == "w":
                    s.wfault(ep, f[1], f[2], f[3])
                else:
                    s.gfault(f[1], f[2], 0, f[3])
        r, o = script.run(ctx, sim, case["typ"], cmds, args, files, extra=extra, must_end=False, limit=20000000, hold=60 if ep == "peer" else 0)
        crashcheck(r)
        ctx.mark("dst_" + dst)
        ctx.mark("sim_" + sim)
        if o[-1] is None:
            raise Viol("script", "commands were not executed: " + r.text[-300:])
        st = script.stop_of(o[-3])
        e = r.eps.get(ep)
        got = e.out if e else b""
        want = on_wire(data, dst)
        if ep == "peer" and not (e and e.accepted):
            raise Viol("tx:accept", "the UART's port did not accept the connection")
        ctx.mark("bytes", len(data))
        if banner:
            m = re.match(rb"^((?:\x1b[\[\]()c!?0-9;#a-zA-Z]*|\0|\r\n|\n|[a-z0-9]+\[\d\] terminal display, press \^. to access control menu)*)", got)
            head = got[:len(got) - len(want)] if len(got) >= len(want) else b""
            if got.endswith(want) and (not head or re.fullmatch(rb"(?:[\x00-\xff]*terminal display, press[^\n]*\n)?(?:\x1b[^a-zA-Z]*[a-zA-Z]|\xff[\xfa-\xff].|\0|[\x80-\xff])*", head, re.S)):
                return
            got = got[len(m.group(1)):] if m else got
        elif got == want:
            return
        if st is None or st[1] != 104:
            raise Viol("tx:stuck", "%s uart %d: the guest has not finished sending %d bytes in %d instructions, %d arrived" % (sim, uid, len(data), bound, len(got)))
        k = next((i for i in range(min(len(got), len(want))) if got[i] != want[i]), min(len(got), len(want)))
        raise Viol("tx:wrong", "%s uart %d to %s: %d bytes sent, %d arrived; first difference at %d: arrived ..%r.. sent ..%r.." % (
            sim, uid, dst, len(want), len(got), k, got[max(0, k - 4):k + 10], want[max(0, k - 4):k + 10]))


PROP = P()
