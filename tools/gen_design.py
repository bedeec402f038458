#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, the checks' own descriptions and tools/design_tail.md."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path[:0] = [V, V + "/checks"]; os.chdir(V)
import importlib
T = {}
def check(i, technique, note, **kw): T[i] = (technique, note)
exec(re.sub(r"(?m)^(from|import) .*", "", open("tools/checks_table.py").read()), {"check": check})
out = [open("tools/design_head.md").read().rstrip(), "\n## Property by property\n"]
for l in open("properties.jsonl"):
    d = json.loads(l); i = d["id"]; out.append("### %s %s\n" % (i, d["title"]))
    if not os.path.exists("checks/%s.py" % i.lower()): out.append("Not applicable here; see MANIFEST.json.\n"); continue
    m = importlib.import_module(i.lower()); tech, note = T.get(i, ("", ""))
    out.append("*Specified:* %s\n" % d["statement"]); out.append("*Method:* %s.\n" % tech.rstrip("."))
    out.append("*Workload and oracle:* %s\n" % " ".join(m.RULE.split()))
    if note: out.append("*Bounds:* %s\n" % note)
    if getattr(m, "ASSUMPTIONS", None): out.append("*Assumptions:* %s\n" % " ".join(m.ASSUMPTIONS))
    q = len(m.cases("quick", __import__("random").Random(1))); t = len(m.cases("thorough", __import__("random").Random(1)))
    out.append("*Cost:* %d cases (each one or more broker runs) in the quick tier, %d in the thorough one; quick runs take 5 to 70 s after a build of about 25 s.\n" % (q, t))
bugs = ["| bug | property | caught by | needs |", "|---|---|---|---|"]
for i in sorted(os.listdir("seeded")) if os.path.isdir("seeded") else []:
    m = json.load(open("seeded/%s/meta.json" % i)); bugs.append("| %s | %s | %s | %s |" % (i, m["property"], m.get("caught_by", m["property"]), " ".join(m["needs"].split())))
fixed = ["* " + l[len("fixed: "):].strip() for l in open("known_findings.txt") if l.startswith("fixed:")]
out.append(open("tools/design_tail.md").read().replace("%BUGS%", "\n".join(bugs)).replace("%FIXED%", "\n".join(fixed)))
open("DESIGN.md", "w").write("\n".join(out))
