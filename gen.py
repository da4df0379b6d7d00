#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the property records in spec/*.json (development tool, not run by checks)."""
import glob, json, os
from props import PROPS
H = os.path.dirname(os.path.abspath(__file__))
recs = []
for f in sorted(glob.glob(os.path.join(H, "spec", "*.json"))):
    recs += json.load(open(f))
recs.sort(key=lambda r: r["order"])
with open(os.path.join(H, "properties.jsonl"), "w") as o:
    for r in recs:
        assert len(r["title"]) <= 80, r["title"]
        o.write(json.dumps({
            "id": r["id"], "title": r["title"], "statement": r["statement"],
            "quantifier": {"over": r["over"], "text": r["quant"]}, "why_tests_cant": r["why"],
            "anchors": {"files": r["files"], "mechanism": [{"name": m[0], "where": m[1]} for m in r["mech"]],
                        "observe_at": r.get("observe", []), "hook_needed": None}}) + "\n")
checks = []
for r in recs:
    if r["id"] not in PROPS:
        continue
    checks.append({"property": r["id"], "quick_cmd": "python3 run.py check %s quick" % r["id"], "thorough_cmd": "python3 run.py check %s thorough" % r["id"],
                   "technique": r["technique"], "level": PROPS[r["id"]].get("level", "exploration"), "level_note": r["note"], "evidence_file": "evidence/%s.json" % r["id"]})
json.dump({"version": 1, "setup_cmd": "python3 run.py setup", "hooks": {"guard": "none", "enable": "no hooks: the monitors use the public interface, its progress/log/stop callback object and compiler instrumentation", "source_commits": []},
           "checks": checks, "not_applicable": [{"property": r["id"], "reason": r["na"]} for r in recs if r["id"] not in PROPS]}, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(recs), "properties", len(checks), "checks")

# DESIGN.md = tools/design_head.md + one section per property + tools/design_tail.md + the table of planted changes
D = open(os.path.join(H, "tools", "design_head.md")).read()
for r in recs:
    D += "\n### %s - %s\n\n" % (r["id"], r["title"])
    if r["id"] not in PROPS:
        D += "Not applicable: %s\n" % r["na"]
        continue
    p = PROPS[r["id"]]
    D += "*Specified:* %s\n\n" % r["statement"]
    D += "*Decided by:* %s. %s\n\n" % (r["technique"], r["note"])
    D += "*Observed:* %s. *Workload:* %s.\n\n" % ("; ".join(r.get("observe", [])), p["rule"].rstrip("."))
    D += "*Bounds and cost:* " + "; ".join("`%s` (%s%s) %d cases quick, %d thorough" % (q["name"], q["cfg"] if not q.get("vg") else "memcheck", ", %d processes" % q["mpi"] if q.get("mpi") else "", q["cases"], q.get("thorough", q["cases"])) for q in p["phases"]) + ".\n\n"
    D += "*Beyond the tests:* %s\n" % r["why"]
D += "\n" + open(os.path.join(H, "tools", "design_tail.md")).read().replace("@NFIXED@", str(len(json.load(open(os.path.join(H, "known_findings.json")))["fixed"])))
notes = json.load(open(os.path.join(H, "tools", "seed_notes.json")))
D += "| change | property | needs | breaks | caught by |\n|---|---|---|---|---|\n"
for f in sorted(glob.glob(os.path.join(H, "seeded", "*", "meta.json"))):
    m = json.load(open(f)); i = os.path.basename(os.path.dirname(f))
    D += "| %s | %s | %s | %s | %s |\n" % (i, m["property"], m["needs"].replace("|", "/"), m["what_it_breaks"].replace("|", "/"), notes.get(i, m["property"]))
open(os.path.join(H, "DESIGN.md"), "w").write(D)
