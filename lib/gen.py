#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NOT_CLAIMED
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for pid, p in sorted(list(PROPS.items()) + list(NOT_CLAIMED.items())):
        f.write(json.dumps({
            "id": pid, "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": p["mechanism"], "where": p["files"][0]}]}}) + "\n")
m = {"version": 1, "setup_cmd": "./check --setup",
     "checks": [{"property": pid, "quick_cmd": "./check " + pid, "thorough_cmd": "./check %s --thorough" % pid,
                 "evidence_file": "evidence/%s.json" % pid, "technique": p["technique"], "level": p["level"],
                 "level_note": p["note"]} for pid, p in sorted(PROPS.items())],
     "not_applicable": [{"property": pid, "reason": p["reason"]} for pid, p in sorted(NOT_CLAIMED.items())],
     "notes": "No hooks in /repo: the harnesses link the simulators' own objects. See DESIGN.md."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")

# DESIGN.md
known = open(os.path.join(V, "known_findings.txt")).read().split("\n")
out = []
for pid, p in sorted(PROPS.items()):
    out.append("## %s %s\n" % (pid, p["title"]))
    out.append(p["statement"] + "\n")
    out.append("* **Decided by**: %s." % p["technique"])
    out.append("* **Explored**: %s." % p["quant"])
    if p.get("design"):
        out.append("* **Model and oracle**: %s" % p["design"])
    out.append("* **Counting rule**: %s." % p["rule"])
    out.append("* **Trust and limits**: %s%s" % (p["note"], "".join(" Not explored: %s." % a for a in p.get("assumptions", []))))
    out.append("* **Why tests cannot settle it**: %s" % p["why"])
    out.append("* **Code**: %s (%s)." % (", ".join("`%s`" % f for f in p["files"]), p["mechanism"]))
    if p.get("cost"):
        out.append("* **Cost**: %s." % p["cost"])
    n = sum(1 for l in known if l.startswith("fixed: property=%s " % pid))
    k = [l.split(" ", 3)[3] for l in known if l.startswith("known: property=%s " % pid)]
    if n:
        out.append("* **Defects repaired**: %d." % n)
    for l in k:
        out.append("* **Known finding**: %s" % l)
    if p.get("alarms"):
        out.append("* **False alarms handled**: %s" % p["alarms"])
    out.append("")
pl = ["| change | property | needs | result |", "|---|---|---|---|"]
sd = os.path.join(V, "seeded")
try:
    res = dict(l.split(None, 1) for l in open(os.path.join(V, "lib/plants.txt")).read().split("\n") if l.strip())
except OSError:
    res = {}
for d in sorted(os.listdir(sd)):
    j = json.load(open(os.path.join(sd, d, "meta.json")))
    pl.append("| %s | %s | %s | %s |" % (d, j["property"], j["needs"].replace("|", "/"), res.get(d, "caught")))
t = open(os.path.join(V, "lib/design.in.md")).read()
t = t.replace("@PROPS@", "\n".join(out)).replace("@PLANTS@", "\n".join(pl))
with open(os.path.join(V, "DESIGN.md"), "w") as f:
    f.write(t)
