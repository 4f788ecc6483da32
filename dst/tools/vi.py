"""Print a replay file compactly."""
import json, sys
d = json.load(open(sys.argv[1]))
print(d["sig"], d["msg"][:1500])
print({k: (v if len(str(v)) < 400 else str(v)[:400]) for k, v in d["case"].items()})
