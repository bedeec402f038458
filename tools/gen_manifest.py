#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SAN = "ASan+UBSan build of the whole broker"
T = {}
def check(pid, technique, note, level="exploration"): T[pid] = (technique, note, level)
exec(open(V + "/tools/checks_table.py").read())
checks = []
for l in open(V + "/properties.jsonl"):
    pid = json.loads(l)["id"]
    if pid not in T or not os.path.exists("%s/checks/%s.py" % (V, pid.lower())): continue
    t, n, lv = T[pid]
    checks.append({"property": pid, "quick_cmd": "python3 run.py %s" % pid, "thorough_cmd": "python3 run.py %s --thorough" % pid, "technique": t, "level": lv, "level_note": n})
done = {c["property"] for c in checks}
na = [{"property": json.loads(l)["id"], "reason": NA.get(json.loads(l)["id"], "check not built yet")} for l in open(V + "/properties.jsonl") if json.loads(l)["id"] not in done]
m = {"version": 1, "setup_cmd": "python3 lib/build.py asan noise tsan", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "FMQ_VERIF", "enable": "lib/build.py compiles /repo with -DFMQ_VERIF and links shim/shim.cpp; no code in /repo depends on the guard so far", "source_commits": []},
     "notes": "All checks run the real broker, rebuilt from /repo's working tree with sanitizers, and judge recorded traffic. See DESIGN.md."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
