#!/usr/bin/env python3
"""Writes DESIGN.md from tools/doc, tools/props.py and the rules of the checks."""
import importlib
import json
import os
import sys

sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
sys.path.insert(0, ROOT)
from props import NOT_APPLICABLE, PROPS  # noqa: E402


def read(name):
    with open(os.path.join(ROOT, "tools", "doc", name)) as f:
        return f.read()


out = [read("head.md"), "## 2. The properties claimed\n"]
for p in PROPS:
    m = importlib.import_module("sa.checks." + p["id"].lower())
    ex = importlib.import_module("sa.examples." + p["id"].lower())
    out.append("### %s %s\n" % (p["id"], p["title"]))
    out.append(p["statement"] + "\n")
    out.append("* Technique: %s." % p["technique"])
    out.append("* Decided: %s" % m.RULES)
    out.append("* Quantified over: %s; why tests cannot: %s." % (p["for_all"], p["tests"]))
    out.append("* Bounds and strength: %s" % p["note"])
    if m.ASSUMPTIONS:
        out.append("* Assumed: %s." % "; ".join(m.ASSUMPTIONS))
    out.append("* Examples run by the thorough tier: %d breaking, %d preserving.\n" % (len(ex.BREAKING), len(ex.PRESERVING)))
out.append("## 3. Not applicable to this family\n")
for p in NOT_APPLICABLE:
    out.append("* %s %s: %s" % (p["id"], p["title"], p["reason"]))
out.append("")
out.append(read("tail.md"))
out.append("## 5. Planted bugs and the checks catching them\n")
caught = {}
path = os.path.join(ROOT, "tools", "doc", "caught.json")
if os.path.exists(path):
    with open(path) as f:
        caught = json.load(f)
base = os.path.join(ROOT, "seeded")
out.append("| planted bug | what it breaks | caught by |\n|---|---|---|")
for d in sorted(os.listdir(base)):
    with open(os.path.join(base, d, "meta.json")) as f:
        meta = json.load(f)
    out.append("| %s | %s | %s |" % (d, meta["what_it_breaks"].replace("|", "/"), ", ".join(caught.get(d, [])) or "none"))
with open(os.path.join(ROOT, "DESIGN.md"), "w") as f:
    f.write("\n".join(out) + "\n")
