"""mkbug.py ID PROPERTY PKG FILE <<< JSON-ish spec: helper to write a planted bug.
Reads python source on stdin defining: EDITS=[(old,new)...], TEST='go test body', NEEDS, BREAKS."""
import sys, os, subprocess, json
id, prop, pkg = sys.argv[1:4]
ns = {}
exec(sys.stdin.read(), ns)
d = "/verif/seeded/" + id
os.makedirs(d, exist_ok=True)
touched = []
for f, old, new in ns["EDITS"]:
    p = "/repo/" + f
    s = open(p).read()
    assert s.count(old) == 1, (f, old, s.count(old))
    open(p, "w").write(s.replace(old, new))
diff = subprocess.run(["git", "-C", "/repo", "diff"], stdout=subprocess.PIPE, text=True).stdout
subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
open(d + "/patch.diff", "w").write(diff)
open(d + "/demo_test.go", "w").write(ns["TEST"].lstrip())
race = ns.get("RACE", "")
entries = [(pkg + "/zz_demo_test.go", "demo_test.go")]
if ns.get("KAFKA"):  # the demo drives real transports against the fake cluster
    for f in ("broker.go", "sasl.go"):
        t = open("/verif/harness/fakekafka/" + f).read()
        open(d + "/fakekafka_" + f, "w").write(t)
        entries.append((pkg + "/zzfakekafka/" + f, "fakekafka_" + f))
over = ",".join('\\"$PWD/%s\\":\\"$here/%s\\"' % e for e in entries)
open(d + "/demo.sh", "w").write('''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
echo "{\\"Replace\\":{%s}}" > "$t/overlay.json"
go test %s-count=1 -vet=off -timeout 200s -overlay "$t/overlay.json" -run 'TestDemo$' ./%s
''' % (over, race, pkg))
json.dump({"property": prop, "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
