#!/usr/bin/env python3
"""mkseed.py SPEC.py...: build /verif/seeded/<id>/ from specs, confirm each in a copy.

A spec defines ID, PROPERTY, NEEDS, BREAKS, EDITS [(file, old, new)], DEMO (python).
"""
import json
import os
import re
import runpy
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
DEMO_SH = """#!/bin/bash
# exit 0: the property holds in this scenario; anything else: it is broken
export PYTHONDONTWRITEBYTECODE=1
PYTHONPATH="$PWD" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
"""


def run(cmd, cwd):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=cwd)
    return subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=300)


def tests(cwd):
    r = run([PY, "-m", "pytest", "tests", "-q", "-p", "no:cacheprovider", "-x"], cwd)
    return r.returncode == 0, r.stdout[-600:]


def main():
    ok = True
    for spec in sys.argv[1:]:
        d = runpy.run_path(spec)
        out = os.path.join(ROOT, "seeded", d["ID"])
        tmp = tempfile.mkdtemp(prefix="seed")
        try:
            work = os.path.join(tmp, "repo")
            shutil.copytree("/repo", work)
            os.makedirs(out, exist_ok=True)
            with open(os.path.join(out, "demo.py"), "w") as f:
                f.write(d["DEMO"].lstrip("\n"))
            with open(os.path.join(out, "demo.sh"), "w") as f:
                f.write(DEMO_SH)
            os.chmod(os.path.join(out, "demo.sh"), 0o755)
            with open(os.path.join(out, "meta.json"), "w") as f:
                json.dump({"property": d["PROPERTY"], "needs": d["NEEDS"],
                           "what_it_breaks": d["BREAKS"]}, f, indent=1)
                f.write("\n")
            before = run(["bash", os.path.join(out, "demo.sh")], work)
            for fn, old, new in d["EDITS"]:
                path = os.path.join(work, "pyclibrary", fn)
                s = open(path).read()
                assert s.count(old) == 1, (spec, fn, s.count(old), old)
                open(path, "w").write(s.replace(old, new))
            diff = subprocess.run(["git", "diff"], cwd=work, capture_output=True, text=True).stdout
            # only lines of the original repository may be touched
            with open(os.path.join(out, "patch.diff"), "w") as f:
                f.write(diff)
            after = run(["bash", os.path.join(out, "demo.sh")], work)
            good, log = tests(work)
            base = subprocess.run(["git", "show", "fbf19c5:pyclibrary/" + d["EDITS"][0][0]], cwd="/repo",
                                  capture_output=True, text=True).stdout.splitlines()
            mine = [x[1:] for x in diff.splitlines()
                    if x.startswith("-") and not x.startswith("---") and x[1:].strip()]
            added = [x for x in mine if x not in base]
            v = before.returncode == 0 and after.returncode != 0 and good
            print("%-4s %s demo before=%d after=%d tests=%s removed=%d not-in-base=%d" % (
                "ok" if v else "BAD", d["ID"], before.returncode, after.returncode, good,
                len(mine), len(added)))
            if not v:
                ok = False
                print(before.stdout[-500:], before.stderr[-800:])
                print("--- after", after.stdout[-500:], after.stderr[-500:])
                if not good:
                    print(log)
            else:
                print("      after:", (after.stdout + after.stderr).strip().splitlines()[-1:])
        finally:
            shutil.rmtree(tmp)
    return 0 if ok else 1


if __name__ == "__main__":
    sys.exit(main())
