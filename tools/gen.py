#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from props.py and checks.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path[:0] = [root, here]
from props import P
from checks import CHECKS, NOT_APPLICABLE, HOOKS
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
checks = []
for p in P:
    c = CHECKS.get(p["id"])
    if not c:
        assert p["id"] in NOT_APPLICABLE, p["id"] + " has no check"
        continue
    checks.append(dict(property=p["id"], quick_cmd="python3 check.py %s" % p["id"], thorough_cmd="python3 check.py %s --thorough" % p["id"],
                       technique=c["technique"], level=c.get("level", "exploration"), level_note=c["note"]))
m = dict(version=1, setup_cmd="python3 check.py --setup", hooks=HOOKS, checks=checks,
         not_applicable=[dict(property=k, reason=v) for k, v in NOT_APPLICABLE.items()])
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(P), "properties,", len(checks), "checks")
