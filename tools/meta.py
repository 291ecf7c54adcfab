#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table, so the two stay in step."""
import json, os, re, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS

TECH = "contract-based deductive verification (verification conditions generated from the Go source of /repo, SMT-discharged)"
props, checks, na = [], [], []
for p in PROPS:
    assert re.match(r"^[A-Z][0-9]{2,3}$", p["id"]) and len(p["title"]) <= 80, p["id"]
    props.append({
        "id": p["id"], "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["quant"]},
        "why_tests_cant": p["why"],
        "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]},
    })
    if p.get("na"):
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "./check.sh %s quick" % p["id"],
        "thorough_cmd": "./check.sh %s thorough" % p["id"],
        "technique": p.get("tech", TECH),
        "level": p.get("level", "proof"),
        "level_note": p["note"],
    })
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in props:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "Contracts: contracts/*.gov; condition generator: gover/; replay drivers (contracts as runtime oracles, bounded): drivers/<id>/. No hooks in /repo."}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(props), "properties,", len(checks), "checks,", len(na), "not applicable")
