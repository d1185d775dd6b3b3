#!/usr/bin/env python3
"""catch.py [ID...]: which checks report which planted change (in-memory copies)."""
import concurrent.futures
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile

sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.path.insert(0, os.path.join(ROOT, "tools"))


def job(prop, over):
    sys.setrecursionlimit(20000)
    import importlib

    from sa.selftest import verdict
    return verdict(prop, importlib.import_module("sa.checks." + prop.lower()), over)


def main():
    from props import PROPS
    props = [p["id"] for p in PROPS]
    ids = [a for a in sys.argv[1:] if not a.startswith("-")]
    own = "--own" in sys.argv
    seeds = {}
    for d in sorted(glob.glob(os.path.join(ROOT, "seeded", "*"))):
        n = os.path.basename(d)
        if ids and n not in ids:
            continue
        tmp = tempfile.mkdtemp(prefix="catch")
        shutil.copytree("/repo/pyclibrary", tmp + "/pyclibrary")
        r = subprocess.run(["git", "apply", "--unsafe-paths", "--directory", tmp,
                            d + "/patch.diff"], cwd=tmp, capture_output=True, text=True)
        if r.returncode:
            r = subprocess.run(["patch", "-p1", "-s", "-i", d + "/patch.diff"], cwd=tmp,
                               capture_output=True, text=True)
            assert r.returncode == 0, (n, r.stderr, r.stdout)
        over = {}
        for base, _, fs in os.walk(tmp + "/pyclibrary"):
            for f in fs:
                if f.endswith(".py"):
                    rel = os.path.relpath(os.path.join(base, f), tmp)
                    s = open(os.path.join(base, f)).read()
                    if s != open("/repo/" + rel).read():
                        over[rel] = s
        shutil.rmtree(tmp)
        assert over, n
        seeds[n] = (json.load(open(d + "/meta.json"))["property"], over)
    with concurrent.futures.ProcessPoolExecutor(8) as ex:
        futs = {}
        for n, (prop, over) in seeds.items():
            for p in ([prop] if own else props):
                futs[(n, p)] = ex.submit(job, p, over)
        doc = os.path.join(ROOT, "tools", "doc", "caught.json")
        table = json.load(open(doc)) if os.path.exists(doc) else {}
        for n, (prop, over) in seeds.items():
            hits = []
            oops = []
            for p in ([prop] if own else props):
                v, det = futs[(n, p)].result()
                if v == "violation":
                    hits.append(p)
                if v == "no-answer":
                    oops.append(p + ": " + det[-150:])
                if p == prop:
                    mine = (v, det[:160])
            print("%-6s %-34s own=%s caught=%s all=%s %s %s" % (
                "ok" if mine[0] == "violation" else "MISS", n, prop, mine[0], ",".join(hits),
                "NO-ANSWER " + "; ".join(oops) if oops else "", mine[1]))
            if not own:
                table[n] = hits
    if not own:
        with open(doc, "w") as f:
            json.dump(table, f, indent=1, sort_keys=True)
            f.write("\n")


if __name__ == "__main__":
    main()
