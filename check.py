#!/usr/bin/env python3
"""check.py <property id> [quick|thorough]: decide one property statically."""

import importlib
import os
import sys
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)

from sa.common import Ctx  # noqa: E402
from sa.flow import LimitReached  # noqa: E402
from sa.program import AnalysisBroken, Program  # noqa: E402
from sa.report import Report  # noqa: E402


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    mod = importlib.import_module("sa.checks." + prop.lower())
    rep = Report(prop)
    try:
        p = Program()
        mod.run(Ctx(p, rep))
        extra = None
        if tier == "thorough":
            from sa import selftest

            extra = {"selftest": selftest.run(prop, mod)}
    except (AnalysisBroken, LimitReached) as e:
        print("ANALYSIS-BROKEN property=%s %s" % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s internal error" % prop)
        return 2
    return rep.finish(tier, mod.TITLE, mod.RULES, getattr(mod, "ASSUMPTIONS", ()), extra)


if __name__ == "__main__":
    sys.exit(main())
