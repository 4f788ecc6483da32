#!/usr/bin/env python3
"""check.py run ID [--tier quick|thorough] [--budget S] [--cases N] | replay FILE | setup | show ID IDX"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import argparse, json
from dst import core, load_prop, prop_ids


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd", choices=["run", "replay", "setup", "show", "list"])
    ap.add_argument("what", nargs="?")
    ap.add_argument("idx", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--budget", type=float)
    ap.add_argument("--cases", type=int)
    ap.add_argument("--nobuild", action="store_true")
    a = ap.parse_args()
    try:
        if a.cmd == "setup":
            for v in ("plain", "san"):
                core.build(v, sims=(a.what.split(",") if a.what else None))
            return 0
        if a.cmd == "list":
            print(" ".join(prop_ids()))
            return 0
        if a.cmd == "replay":
            return core.replay_main(a.what, a.nobuild)
        p = load_prop(a.what)
        if a.cmd == "show":
            c = core.mkcase(p, a.tier, a.seed, int(a.idx))
            print(json.dumps(c, indent=1))
            print(core.run_case(p, c)["viol"])
            return 0
        return core.check_main(p, a.tier, a.seed, a.budget, a.cases)
    except core.CheckError as e:
        print("CHECK-ERROR:", e)
        return 3


sys.exit(main())
