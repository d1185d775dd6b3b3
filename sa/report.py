"""Collects the obligations of a check, its violations, and writes the evidence."""

import json
import os
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(ROOT, "known_findings.txt")


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.obligations = []  # (rule, construct, ok, detail)
        self.violations = {}
        self.undecided = []  # (rule, construct, reason)
        self.functions = set()
        self.paths = 0
        self.events = 0
        self.t0 = time.time()

    def use(self, flow):
        """Account for an analysed entry point."""
        if flow.entry.qual not in self.functions or True:
            self.paths += len(flow.outcomes)
            self.events += len(flow.events)
        self.functions.add(flow.entry.qual)
        for e in flow.events:
            self.functions.update(e.stack or ())

    def ok(self, rule, construct, detail=""):
        self.obligations.append((rule, construct, True, detail))

    def bad(self, rule, construct, detail, where=""):
        self.obligations.append((rule, construct, False, detail))
        key = (rule, construct)
        if key not in self.violations:
            self.violations[key] = (detail, where)

    def check(self, cond, rule, construct, detail="", where=""):
        if cond:
            self.ok(rule, construct, "")
        else:
            self.bad(rule, construct, detail, where)
        return bool(cond)

    def skip(self, rule, construct, reason):
        """The construct has a form the rule says nothing about."""
        self.undecided.append((rule, construct, reason))

    def skipped(self, rule):
        return any(x[0] == rule for x in self.undecided)

    def count(self, rule):
        return len({c for r, c, _, _ in self.obligations if r == rule})

    def floor(self, rule, n):
        """At least `n` instances of the rule must have been looked at."""
        from .program import AnalysisBroken

        if any(u[0] == rule for u in self.undecided):
            return
        if self.count(rule) < n and not self.violations:
            raise AnalysisBroken(
                "rule %s of %s applied to %d constructs, expected at least %d"
                % (rule, self.prop, self.count(rule), n)
            )

    def known(self):
        out = []
        if os.path.exists(KNOWN):
            with open(KNOWN) as f:
                for line in f:
                    line = line.strip()
                    if line.startswith("known: "):
                        out.append(line[7:])
        return out

    def finish(self, tier, title, rules, assumptions=(), extra=None):
        """Print the result, write the evidence; returns the exit code."""
        listed = {}
        for line in self.known():
            parts = line.split(" | ")
            head = dict(x.split("=", 1) for x in parts[0].split() if "=" in x)
            if head.get("property") == self.prop and len(parts) >= 4:
                listed[(parts[1].strip(), parts[2].strip())] = parts[3].strip()
        fresh = {}
        for k, v in sorted(self.violations.items()):
            if k in listed:
                print("KNOWN-FINDING: property=%s %s: %s" % (self.prop, k[1], listed[k]))
            else:
                fresh[k] = v
        uniq = {}
        for r, c, ok, d in self.obligations:
            if (r, c) not in uniq or not ok:
                uniq[(r, c)] = (r, c, ok, d)
        self.obligations = list(uniq.values())
        evdir = os.path.join(ROOT, "evidence")
        os.makedirs(evdir, exist_ok=True)
        replay = os.path.join(evdir, "%s.violations.txt" % self.prop)
        by_rule = {}
        for r, c, ok, d in self.obligations:
            x = by_rule.setdefault(r, {"obligations": 0, "discharged": 0})
            x["obligations"] += 1
            x["discharged"] += bool(ok)
        n_ok = sum(1 for o in self.obligations if o[2])
        samples = []
        seen = set()
        for r, c, ok, d in self.obligations:
            if r not in seen:
                seen.add(r)
                samples.append("%s: %s%s" % (r, c, "" if ok else " VIOLATED " + d))
        cov = {
            "explanation": "Static analysis of the current source (never executed): "
            + rules,
            "obligations": len(self.obligations),
            "discharged": n_ok,
            "functions_analysed": len(self.functions),
            "paths": self.paths,
            "program_points_with_effects": self.events,
            "by_rule": by_rule,
            "samples": samples[:20],
        }
        if self.undecided:
            cov["not_decided"] = ["%s: %s: %s" % u for u in self.undecided]
        if extra:
            cov.update(extra)
        ev = {
            "property": self.prop,
            "tier": tier,
            "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": "other",
            "coverage": cov,
            "assumptions": list(assumptions),
            "wall_s": round(time.time() - self.t0, 3),
            "violations": len(fresh),
        }
        with open(os.path.join(evdir, "%s.json" % self.prop), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
        print("%s %s: %d obligations (%d discharged) over %d functions, %d paths" % (
            self.prop, title, len(self.obligations), n_ok, len(self.functions), self.paths))
        for r, x in sorted(by_rule.items()):
            print("  rule %-34s %d/%d" % (r, x["discharged"], x["obligations"]))
        for u in self.undecided:
            print("  not decided: [%s] %s: %s" % u)
        if os.path.exists(replay):
            os.unlink(replay)
        if fresh:
            with open(replay, "w") as f:
                for (rule, construct), (detail, where) in sorted(fresh.items()):
                    f.write("%s | %s | %s | %s\n" % (rule, construct, detail, where))
            for (rule, construct), (detail, where) in sorted(fresh.items()):
                print("  violated: [%s] %s: %s (%s)" % (rule, construct, detail, where))
            print("VIOLATION property=%s replay=%s" % (self.prop, replay))
            return 1
        return 0
