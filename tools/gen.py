#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json
import os
import sys

sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
sys.path.insert(0, ROOT)
from props import NOT_APPLICABLE, PROPS  # noqa: E402

lines = []
checks = []
na = []
for p in PROPS + NOT_APPLICABLE:
    lines.append({
        "id": p["id"], "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["for_all"]},
        "why_tests_cant": p["tests"],
        "anchors": {
            "files": p["files"],
            "mechanism": [{"name": n, "where": w} for n, w in p["where"]],
            **({"observe_at": p["observe"]} if p.get("observe") else {}),
        },
    })
    assert len(p["title"]) <= 80, p["id"]
    assert p["statement"].count(". ") <= 2, p["id"]
for p in PROPS:
    assert os.path.exists(os.path.join(ROOT, "sa", "checks", p["id"].lower() + ".py")), p["id"]
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3 /verif/check.py %s quick" % p["id"],
        "thorough_cmd": "python3 /verif/check.py %s thorough" % p["id"],
        "technique": p["technique"],
        "level": "other",
        "level_note": p["note"],
    })
for p in NOT_APPLICABLE:
    na.append({"property": p["id"], "reason": p["reason"]})
lines.sort(key=lambda x: x["id"])
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for x in lines:
        f.write(json.dumps(x) + "\n")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump({
        "version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
        "notes": "Static analysis only: the sources under /repo/pyclibrary are parsed "
                 "and analysed on every run, never imported or executed. The thorough "
                 "tier also runs each check on edited copies of the sources (breaking "
                 "and behaviour preserving edits) held in memory.",
    }, f, indent=1)
    f.write("\n")
print(len(PROPS), "claimed,", len(na), "not applicable")

import design  # noqa: E402, F401  (writes DESIGN.md)
