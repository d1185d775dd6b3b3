"""Conditional compilation keeps exactly the active lines."""

import ast
import re
import string

from ..common import where
from ..flow import NONE, C, is_const, mentions, show, subterms
from ..model import Machine, Unknown, initial, paths_of
from ..program import AnalysisBroken

TITLE = "only what lies in active branches of conditional directives has an effect"
RULES = (
    "the paths through the loop over the lines are extracted as a transition relation "
    "over the variables carried from line to line (flags, counters, stacks), and "
    "compared, for every sequence of conditional directives up to nesting depth 3 and "
    "every outcome of the conditions, with the nesting rules of the C preprocessor: "
    "text is kept, macros are defined and removed, and packing changes exactly in "
    "active regions; conditions are evaluated after 'defined' and macros were resolved; "
    "#ifdef and #ifndef test the definition of the name with opposite outcomes; the table "
    "translating conditions gives each operator its Python one and 0 for unknown names; a "
    "condition which cannot be evaluated does not hold."
)
ASSUMPTIONS = (
    "conditional directives are balanced and nothing follows #else but #endif",
    "branch conditions which do not depend on the conditional nesting can have any outcome",
)

NAMES = ["if", "ifdef", "ifndef", "elif", "else", "endif", "define", "undef", "pragma",
         "%other", "%text"]
CORE = ("expand_macros", "eval_preprocessor_expr", "add_def", "rem_def", "build_parser",
        "eval_expr", "process_macro_defn", "expand_fn_macro", "compile_fn_macro")
DEPTH = 3


def directive_term(paths):
    """The term holding the name of the directive of a line."""
    score = {}
    for p in paths:
        for a in p.conds:
            if a[0] == "eq":
                for x, y in ((a[1], a[2]), (a[2], a[1])):
                    if is_const(x) and x[2] in NAMES:
                        score.setdefault(y, set()).add(x[2])
            elif a[0] == "in" and a[2][0] == "consts":
                vals = {x[2] for x in a[2][1]}
                if vals & set(NAMES):
                    score.setdefault(a[1], set()).update(vals & set(NAMES))
    if not score:
        return None
    best = max(score, key=lambda t: len(score[t]))
    return best if {"else", "endif"} <= score[best] else None


def line_term(d):
    for x in subterms(d):
        if x[0] == "call" and x[1][0] in ("method", "ext"):
            n = x[1][2] if x[1][0] == "method" else x[1][1].split(".")[-1]
            if n in ("match", "search", "fullmatch") and x[2]:
                return x, x[2][-1 if x[1][0] == "ext" and len(x[2]) == 2 else 0]
    return None, None


class Lines:
    """The loop over the lines of the file."""

    def __init__(self, ctx):
        f = ctx.method(ctx.CParser, "preprocess")
        self.f = f
        self.fl = fl = ctx.flow(
            f, key="c08", implicit=False, max_states=60000,
            opaque=lambda x: x.name in CORE or x.cls is not None and x.cls is not ctx.CParser)
        found = None
        for key, ps in paths_of(fl, lambda ps: directive_term(ps) is not None):
            d = directive_term(ps)
            if found is None or key[1] < found[0][1]:
                found = (key, ps, d)
        if found is None:
            raise AnalysisBroken("the loop over the lines of the file was not found")
        (self.site, _), self.paths, self.d = found
        self.match, self.line = line_term(self.d)
        if self.line is None:
            raise AnalysisBroken("the line matched against directives was not found")

    def is_text(self, p):
        """Truth of 'the line is no directive' on the path, or None."""
        for a, v in p.conds.items():
            if a[0] == "is" and self.match in a[1:3] and NONE in a[1:3]:
                return v
            if a == self.match:
                return not v
        return None

    def possible(self, p):
        """Directives for which the path can be taken."""
        t = self.is_text(p)
        if t is True:
            return ["%text"]
        out = []
        for n in NAMES:
            if n == "%text":
                if t is None:
                    out.append(n)
                continue
            ok = True
            for a, v in p.conds.items():
                if a[0] == "eq" and self.d in a[1:3]:
                    c = a[2] if a[1] == self.d else a[1]
                    if is_const(c) and (c[2] == n) != v:
                        ok = False
                elif a[0] == "in" and a[1] == self.d and a[2][0] == "consts":
                    if (n in {x[2] for x in a[2][1]}) != v:
                        ok = False
            if ok:
                out.append(n)
        return out


def run(ctx):
    p, r = ctx.p, ctx.r
    ln = Lines(ctx)
    fl = ln.fl
    paths = ln.paths
    poss = {id(x): ln.possible(x) for x in paths}

    def is_eval(t):
        return t[0] == "call" and (
            t[1][0] == "func" and p.functions[t[1][1]].name == "eval_preprocessor_expr"
            or t[1] == ("builtin", "eval"))

    # -- variables: everything the activity depends on
    atoms = set()
    for x in paths:
        if "%text" in poss[id(x)]:
            atoms.update(a for a in x.conds if not mentions(a, ln.match))
    def vars_in(t):
        return {y for y in subterms(t) if y[0] in ("obj", "phi")}

    work = [v for a in atoms for v in vars_in(a)]
    variables = {}
    while work:
        v = work.pop()
        if v in variables:
            continue
        if v[0] == "phi":
            if v[1] != ln.site or (v[1], v[2]) not in fl.phi_init:
                continue
            i = initial(fl.phi_init[(v[1], v[2])], fl)
        else:
            i = initial(v, fl)
        if i is Unknown:
            continue
        variables[v] = i
        for x in paths:
            touched = False
            for e in x.events:
                if e.kind == "mutate" and (e.target == v or mentions(e.target, v)):
                    touched = True
                    for a in e.args:
                        work.extend(vars_in(a))
            if v[0] == "phi" and x.end.value.get(v[2]) not in (None, v):
                touched = True
                work.extend(vars_in(x.end.value[v[2]]))
            if touched:
                work.extend(y for a in x.conds for y in vars_in(a))
    if not variables:
        raise AnalysisBroken("no variable tracks the conditional nesting")

    cond = {}

    def hook(t):
        if is_eval(t):
            return cond["ev"]
        if t[0] == "call" and any(is_eval(y) for y in subterms(t)) and t[1] == ("builtin", "bool"):
            return cond["ev"]
        raise Unknown

    m = Machine(hook)

    # -- effects of a path
    packs = ("attr", ("param", "self"), "pack_list")
    records = {fl.strip(e.args[-1]) for e in fl.events
               if e.kind == "mutate" and e.how in ("setitem", "setdefault") and mentions(e.target, packs)
               and e.args and fl.strip(e.args[-1])[0] == "obj"}

    def kept(x):
        for e in x.events:
            if e.kind == "mutate" and any(mentions(a, ln.line) for a in e.args) and (
                    e.target not in variables):
                return e
        return None

    def effects(x):
        out = []
        for e in x.events:
            if e.kind == "call":
                if e.target[0] == "func" and p.functions[e.target[1]].name in ("add_def", "rem_def", "process_macro_defn"):
                    out.append(("define" if p.functions[e.target[1]].name != "rem_def" else "undef", e))
                elif e.target[0] == "method" and e.target[2] in (
                        "parseString", "parse_string", "searchString", "scanString"):
                    out.append(("define", e))
            elif e.kind == "mutate" and (
                    mentions(e.target, packs) or fl.strip(e.target) in records):
                out.append(("pragma", e))
            elif e.kind == "mutate" and mentions(e.target, ("attr", ("param", "self"), "defs")):
                out.append(("undef" if e.how in ("pop", "delitem") else "define", e))
        return out

    kept_of = {id(x): kept(x) for x in paths}
    eff_of = {id(x): effects(x) for x in paths}

    def exempt(x, n):
        """The directive is malformed or there is nothing to remove."""
        for a, v in x.conds.items():
            if a[0] == "is" and v and NONE in a[1:3] and any(
                    y[0] == "call" and y != ln.match and (
                        y[1][-1] in ("match", "search", "fullmatch") or str(y[1][1]) in (
                            "re.match", "re.search", "re.fullmatch"))
                    for y in a[1:3]):
                return True
            if a[0] == "call" and a != ln.match and not v and (
                    a[1] in (("ext", "re.match"), ("ext", "re.search")) or a[1][0] == "method"
                    and a[1][2] in ("match", "search")):
                return True
            if n == "undef" and a[0] == "in" and not v and mentions(a[2], ("attr", ("param", "self"), "defs")):
                return True
        return False

    ref0 = ()
    start = (ref0, tuple(sorted(variables.items(), key=repr)))
    seen = {start}
    work = [start]
    bad = {}
    n_steps = 0

    def note(rule, what, detail, e):
        bad.setdefault((rule, what), (detail, e))

    def active(ref):
        return all(f[2] for f in ref)

    while work:
        ref, impl = work.pop(0)
        st = dict(impl)
        act = active(ref)
        for n in NAMES:
            if n in ("elif", "else", "endif") and not ref:
                continue
            if n in ("elif", "else") and ref[-1][3]:
                continue
            if n in ("if", "ifdef", "ifndef") and len(ref) >= DEPTH:
                continue
            for ev in ((True, False) if n in ("if", "ifdef", "ifndef", "elif") else (False,)):
                cond["ev"] = ev
                nref = ref
                if n in ("if", "ifdef", "ifndef"):
                    nref = ref + ((act, ev, act and ev, False),)
                elif n == "elif":
                    enc, taken, _, _ = ref[-1]
                    nref = ref[:-1] + ((enc, taken or ev, enc and not taken and ev, False),)
                elif n == "else":
                    enc, taken, _, _ = ref[-1]
                    nref = ref[:-1] + ((enc, True, enc and not taken, True),)
                elif n == "endif":
                    nref = ref[:-1]
                hits = 0
                for x in paths:
                    if n not in poss[id(x)]:
                        continue
                    nxt = m.step(x, st, variables)
                    if nxt is None:
                        continue
                    n_steps += 1
                    hits += 1
                    for kind, e in eff_of[id(x)]:
                        if not act:
                            note("inactive", "%s in an inactive region" % kind,
                                 "has an effect within %s" % desc(ref), e)
                    k = kept_of[id(x)]
                    if n == "%text":
                        if k is None and act:
                            note("active", "text in an active region", "a line is dropped within %s" % desc(ref), x.end)
                        if k is not None and not act:
                            note("inactive", "text in an inactive region", "a line is kept within %s" % desc(ref), k)
                    elif act and n in ("define", "undef") and not exempt(x, n) and not any(
                            kind == n for kind, e in eff_of[id(x)]):
                        note("active", "#%s in an active region" % n, "has no effect within %s" % desc(ref), x.end)
                    s2 = (nref, tuple(sorted(nxt.items(), key=repr)))
                    if s2 not in seen:
                        seen.add(s2)
                        if any(isinstance(v, tuple) and len(v) > 2 * DEPTH + 2 for v in nxt.values()):
                            continue
                        if len(seen) > 4000:
                            raise AnalysisBroken("too many states of the conditional nesting")
                        work.append(s2)
                if not hits:
                    note("no-failure", "#%s" % n.strip("%"), "cannot be processed within %s" % desc(ref), paths[0].end)
        if bad and len(seen) > 200:
            break
    for k in [("inactive", "text in an inactive region"), ("inactive", "define in an inactive region"),
              ("inactive", "undef in an inactive region"), ("inactive", "pragma in an inactive region"),
              ("active", "text in an active region"), ("active", "#define in an active region"),
              ("active", "#undef in an active region")]:
        if k not in bad:
            r.ok(*k)
    for (rule, what), (detail, e) in bad.items():
        r.bad(rule, what, detail, where(e))
    r.ok("explored", "%d states of the nesting, %d steps over %d paths" % (len(seen), n_steps, len(paths)))
    for want in ("define", "undef", "pragma"):
        if not any(k == want for x in paths for k, _ in eff_of[id(x)]):
            raise AnalysisBroken("no effect of #%s found" % want)

    conditions(ctx, ln, poss, is_eval)
    defined_test(ctx, ln)
    evaluation(ctx)


# what an operator or name of a condition becomes, once in Python
TOKENS = {"!": "not", "&&": "and", "||": "or", "!=": "!=", "==": "==", "<=": "<=", ">=": ">=", "<": "<", ">": ">",
          "+": "+", "-": "-", "*": "*", "(": "(", ")": ")", "&": "&", "|": "|", "^": "^", "~": "~", "%": "%",
          "UNKNOWN": "0", "_unknown1": "0", "x": "0"}


def evaluation(ctx):
    """A condition has the value C gives it, names which are no macro being 0."""
    r = ctx.r
    f = ctx.method(ctx.CParser, "eval_preprocessor_expr")
    fl = ctx.flow(f, key="c08e", implicit="all")
    evals = [e for e in fl.events if e.kind == "call" and e.target == ("builtin", "eval")]
    if not evals:
        return
    node = evals[0].node
    for s, o in fl.outcomes:
        failed = any(e.kind == "fail" and e.node is node for e in s.trace)
        if not failed:
            continue
        what = "%s: a condition which cannot be evaluated" % f.qual
        if o[0] == "return":
            r.check(is_const(o[1]) and not o[1][2], "conditions", what, "holds: %s is returned" % show(o[1])[:40], f.qual)
        elif s.trace[-1].kind == "fail" and s.trace[-1].node is node or not any(e.kind == "handler" for e in s.trace):
            r.bad("conditions", what, "stops the processing of the header", f.qual)
    for s, o in fl.outcomes:
        if o[0] != "return" or any(e.kind == "fail" for e in s.trace):
            continue
        v = o[1]
        pos = True
        while v[0] == "not" or v[0] == "call" and v[1] == ("builtin", "bool") and len(v[2]) == 1:
            pos = pos != (v[0] == "not")
            v = fl.strip(v[1] if v[0] == "not" else v[2][0])
        if v[0] == "call" and v[1] == ("builtin", "eval"):
            r.check(pos, "conditions", "%s: value" % f.qual, "the outcome is negated", f.qual)
    table = None
    for y in subterms(evals[0].args[0]):
        if y[0] == "call" and y[1][0] == "method" and y[1][2] in ("transformString", "transform_string"):
            table = alternatives(y[1][1], fl)
    if not table:
        return
    for tok, want in TOKENS.items():
        got = tok
        for pat, rep in table:
            m = pat and re.match(pat, tok)
            if m:
                got = (m.group() if rep is None else rep) + tok[m.end():]
                break
        r.check(got.replace(" ", "") == want, "conditions", "%s: %r" % (f.qual, tok), "is evaluated as %r" % got, f.qual)


def alternatives(t, fl):
    """[(regular expression, replacement or None)] of a pyparsing alternative, or None."""
    t = fl.strip(t)
    if t[0] == "bin" and t[1] == "BitOr":
        a, b = alternatives(t[2], fl), alternatives(t[3], fl)
        return None if a is None or b is None else a + b
    rep = None
    if t[0] == "call" and t[1][0] == "method" and t[1][2] in ("setParseAction", "set_parse_action", "addParseAction"):
        c = t[2][0]
        if c not in fl.closures:
            return None
        body = fl.closures[c][0]
        body = body.body if isinstance(body, ast.Lambda) else (
            body.body[-1].value if isinstance(body.body[-1], ast.Return) else None)
        if not isinstance(body, ast.Constant) or not isinstance(body.value, str):
            return None
        rep = body.value
        t = fl.strip(t[1][1])
    if t[0] == "global":
        return [(None, None)] if t[2] in ("number", "integer", "floating") and rep is None else None
    if t[0] == "call" and t[1][0] == "ext":
        n = t[1][1].split(".")[-1]
        a = [text(x) for x in t[2]]
        if None in a or not a:
            return None
        if n in ("Literal", "Keyword"):
            return [(re.escape(a[0]) + (r"\b" if n == "Keyword" else ""), rep)]
        if n in ("oneOf", "one_of"):
            return [("|".join(re.escape(w) for w in sorted(a[0].split(), key=len, reverse=True)), rep)]
        if n == "Word":
            return [("[%s][%s]*" % (re.escape(a[0]), re.escape(a[-1])), rep)]
        if n == "Regex":
            return [(a[0], rep)]
    return None


def text(t):
    if is_const(t) and isinstance(t[2], str):
        return t[2]
    if t[0] == "ext" and t[1] in ("pyparsing.alphas", "pyparsing.alphanums"):
        return string.ascii_letters + (string.digits if t[1].endswith("nums") else "")
    if t[0] == "fmt":
        a = [text(x) for x in t[1]]
        return None if None in a else "".join(a)
    if t[0] == "bin" and t[1] == "Add":
        a = [text(t[2]), text(t[3])]
        return None if None in a else "".join(a)
    return None


def desc(ref):
    if not ref:
        return "the top level"
    return " > ".join("branch(%s%s)" % ("active" if a else "inactive", ", after a taken one" if t and not a else "")
                      for _, t, a, _ in ref)


def conditions(ctx, ln, poss, is_eval):
    """What is evaluated as the condition of #if, #elif, #ifdef and #ifndef."""
    p, r = ctx.p, ctx.r
    done = {}
    for x in ln.paths:
        for n in poss[id(x)]:
            if n not in ("if", "elif", "ifdef", "ifndef"):
                continue
            for e in x.events:
                if e.kind != "call" or not (e.value and is_eval(e.value)):
                    continue
                t = e.args[-1] if e.args else NONE
                kwargs = dict(e.kwargs or ())
                t = kwargs.get("expr", t)
                bad = None
                calls = [y for y in subterms(t) if y[0] == "call"]
                exp = [y for y in calls if y[1][0] == "func" and p.functions[y[1][1]].name == "expand_macros"]
                dfn = [y for y in calls if y[1][0] == "method" and y[1][2] in ("transformString", "transform_string")
                       or y[1][0] in ("ext", "method") and str(y[1][-1]).split(".")[-1] == "sub"]
                if not mentions(t, ln.match):
                    bad = "the condition is %s, not the rest of the line" % show(t)[:60]
                elif not dfn:
                    bad = "'defined' is not resolved in the condition"
                elif any(mentions(y[2], z) for y in dfn for z in exp):
                    bad = "macros are expanded before 'defined' is resolved"
                elif not exp and not any(a[0] == "is" and v and NONE in a[1:3] for a, v in x.conds.items()):
                    bad = "macros are not expanded in the condition"
                elif n in ("ifdef", "ifndef"):
                    pre = [y[2] for z in dfn for y in subterms(z[2]) if y[0] == "const" and isinstance(y[2], str)
                           and "defined" in y[2]]
                    if len(set(pre)) != 1:
                        bad = "the definition of the name is not tested"
                    else:
                        neg = pre[0].split("defined")[0].replace(" ", "").replace("(", "")
                        if neg not in ("", "!") or (neg == "!") != (n == "ifndef"):
                            bad = "the condition is %r followed by the name" % pre[0]
                done.setdefault(n, (bad, e))
                if bad:
                    done[n] = (bad, e)
    for n, (bad, e) in sorted(done.items()):
        r.check(not bad, "conditions", "#%s" % n, bad or "", where(e))
    r.floor("conditions", 4)


def defined_test(ctx, ln):
    """'defined X' is 1 exactly when X names an object or function macro."""
    p, r = ctx.p, ctx.r
    seen = set()
    for x in ln.paths:
        for e in x.events:
            if e.kind != "call" or e.value is None:
                continue
            for y in subterms(e.value):
                if y[0] == "closure" and y in ln.fl.closures:
                    seen.add(id(ln.fl.closures[y][0]))
    for f in [g for g in p.functions.values() if id(g.node) in seen]:
        fl = ctx.flow(f, key="c08", implicit=False)
        tables = {}

        def hook(t):
            if t[0] == "obj":
                for s, o in fl.outcomes:
                    items = s.heap.get((t, "#items"))
                    if items is not None:
                        return tuple(m.ev(z, {}, {}) for z in items)
            raise Unknown

        m = Machine(hook)

        def which(a):
            if a[0] != "in":
                return None
            for k in ("macros", "fnmacros"):
                if any(z[0] == "item" and z[2] == C(k) for z in subterms(a[2])):
                    return k
            return None

        for s, o in fl.outcomes:
            if o[0] != "return":
                continue
            v = o[1]
            if v[0] == "obj":
                v = (s.heap.get((v, "#items")) or (v,))[0]
            for z in list(s.conds) + list(subterms(v)):
                k = which(z)
                if k:
                    tables.setdefault(k, []).append(z)
        if not tables:
            continue
        bad = None
        for a in (False, True):
            for b in (False, True):
                want = "1" if a or b else "0"
                bind = {z: a for z in tables.get("macros", ())}
                bind.update({z: b for z in tables.get("fnmacros", ())})
                for s, o in fl.outcomes:
                    if o[0] != "return" or any(
                            z in bind and bind[z] != w for z, w in s.conds.items()):
                        continue
                    v = o[1]
                    try:
                        if v[0] == "obj":
                            items = s.heap.get((v, "#items")) or (v,)
                            v = items[0]
                        if v[0] == "ifexp":
                            raise Unknown
                        got = m.ev(v, {}, bind)
                    except (Unknown, KeyError):
                        continue
                    if str(got) != want:
                        bad = "is %s for %s" % (got, "a macro" if a else "a function macro" if b else "an unknown name")
        r.check(not bad, "conditions", "%s: 'defined'" % f.qual, bad or "")
