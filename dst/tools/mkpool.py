#!/usr/bin/env python3
"""Sample valid instructions of every simulator of the built tree into dst/pool.json (workload material, not an oracle)."""
import json, os, random, re, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))))
from dst import core, sims


def sample(sim, n, rng):
    types, space, base, size, cb, obs = sims.SIMS[sim]
    bits = {"pblaze": 18, "pdk": 14}.get(sim, 8 * cb)
    got = {}
    org = base + 0x100
    for rnd in range(n // 200):
        cands, cmds = [], []
        for i in range(200):
            k = (rnd * 200 + i)
            if cb == 1:
                c = [k & 255] + [rng.randrange(256) for _ in range(5)]
            else:
                c = [rng.randrange(1 << bits) for _ in range(3)]
            cands.append(c)
            cmds.append(("reset\n" if sim != "pdk" else "") + "set mem %s 0x%x %s\necho @@%d\ndc 0x%x 0x%x\npc 0x%x\nstep 1\n" %
                        (space, org, " ".join(map(str, c)), i, org, org, org))
        sc = core.Scn(sim, ["-q", "-P", "-b", "-R", "1", "-t", types[0]])
        sc.ep("stdin", "pipe")
        sc.file("x", ("".join(cmds) + "kill\n").encode())
        sc.data("stdin", 'exec "x"\n')
        out = core.run_scn(sc).text
        parts = re.split(r"echo @@(\d+)", out)
        for j in range(1, len(parts) - 1, 2):
            i, t = int(parts[j]), parts[j + 1]
            if 'Invalid' in t or 'Error' in t:
                continue
            if "(109)" not in t:
                continue
            m = re.search(r"^\W*0x([0-9a-f]+)\s+((?:[0-9a-f]{2,8} )+)", t, re.M)
            if not m or int(m.group(1), 16) != org:
                continue
            ln = len(m.group(2).split())
            ln = max(1, min(ln, len(cands[i])))
            ins = cands[i][:ln]
            key = (ins[0], ins[1] if ln > 1 and cb == 1 else 0)
            got.setdefault(ins[0] if cb == 1 else tuple(ins), []).append(ins)
    res = []
    for k in sorted(got, key=str):
        res += got[k][:6] if cb == 1 else got[k][:1]
    return res


if __name__ == "__main__":
    rng = random.Random(7)
    d = {}
    for s in sims.NAMES:
        d[s] = sample(s, 2400, rng)
        if sims.SIMS[s][4] > 1 and len(d[s]) > 700:
            d[s] = d[s][:700]
        print(s, len(d[s]), len({x[0] for x in d[s]}), d[s][:3])
    with open(os.path.join(os.path.dirname(sims.__file__), "pool.json"), "w") as f:
        json.dump(d, f, separators=(",", ":"))
