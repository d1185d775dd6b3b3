"""Runs a check on edited copies (in memory) of the analysed sources.

Positive examples (edits breaking the property) must be reported, negative ones
(edits keeping the behaviour) must stay quiet. Edits whose text is no longer in the
sources are skipped. The outcome is recorded in the evidence; it does not change the
verdict on the current tree.
"""

import concurrent.futures
import importlib
import os
import sys

from .common import Ctx
from .flow import LimitReached
from .program import PKG, REPO, AnalysisBroken, Program
from .report import Report


def apply(edits):
    """{path: source} for edits [(file, old, new)...]; None if one does not apply."""
    over = {}
    for fn, old, new in edits:
        rel = os.path.join(PKG, fn)
        src = over.get(rel)
        if src is None:
            with open(os.path.join(REPO, rel), encoding="utf-8") as f:
                src = f.read()
        if src.count(old) < 1:
            return None
        over[rel] = src.replace(old, new, 1)
    return over


def verdict(prop, mod, over):
    rep = Report(prop)
    try:
        mod.run(Ctx(Program(overlay=over), rep))
    except (AnalysisBroken, LimitReached) as e:
        return "no-answer", str(e)
    except Exception as e:  # noqa
        import traceback

        return "no-answer", "internal: %r %s" % (e, traceback.format_exc().replace("\n", " ")[-500:])
    if rep.violations:
        (k, v) = sorted(rep.violations.items())[0]
        return "violation", "[%s] %s: %s" % (k[0], k[1], v[0])
    return "quiet", ""


def _job(prop, over):
    sys.setrecursionlimit(20000)
    return verdict(prop, importlib.import_module("sa.checks." + prop.lower()), over)


def run(prop, mod, verbose=False, only=None):
    try:
        data = importlib.import_module("sa.examples." + prop.lower())
    except ImportError:
        return {"examples": 0}
    out = {"breaking": 0, "reported": 0, "preserving": 0, "quiet": 0, "skipped": 0,
           "unexpected": []}
    jobs = []
    for kind, items in (("violation", data.BREAKING), ("quiet", data.PRESERVING)):
        for name, edits in items:
            if only and only not in name:
                continue
            over = apply(edits)
            if over is None:
                out["skipped"] += 1
                if verbose:
                    print("SKIP", kind, name)
                continue
            jobs.append((kind, name, over))
    with concurrent.futures.ProcessPoolExecutor(
            max_workers=min(8, os.cpu_count() or 1)) as ex:
        res = [ex.submit(_job, prop, over) for _, _, over in jobs]
        for (kind, name, over), fut in zip(jobs, res):
            v, d = fut.result()
            good = v == kind
            out["breaking" if kind == "violation" else "preserving"] += 1
            if good:
                out["reported" if kind == "violation" else "quiet"] += 1
            else:
                out["unexpected"].append("%s: expected %s, got %s %s" % (name, kind, v, d[:200]))
            if verbose:
                print("ok  " if good else "FAIL", kind, name, "->", v, d[:260])
    return out


if __name__ == "__main__":
    sys.setrecursionlimit(20000)
    for prop in sys.argv[1].split(","):
        m = importlib.import_module("sa.checks." + prop.lower())
        print(prop)
        res = run(prop, m, verbose=True, only=sys.argv[2] if len(sys.argv) > 2 else None)
        print(res["unexpected"] and "UNEXPECTED" or "fine")
