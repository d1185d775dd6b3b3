"""Whatever the headers hold, processing them ends."""

import ast
import re

from ..common import own_nodes, where
from ..flow import C, NONE, is_const, show, subterms
from .c29 import callee
from .c31 import circular

TITLE = "processing headers always ends"
RULES = (
    "every loop of the package has a variant on every path going round: a text replaced by "
    "a part of itself starting after a non empty match, a collection some item of which is "
    "removed, a counter looking for a name missing from a table which does not grow, or "
    "bounded; no loop over a list extends it; every recursion is well founded: macros are "
    "expanded in the arguments only and never in what they were replaced by, declarators in "
    "their own parts, typedefs among those not met yet, structures once they are registered."
)
ASSUMPTIONS = (
    "the tables of definitions are finite", "pyparsing and re end on any text",
)
SHRINK = ("pop", "popleft", "popitem", "remove", "clear", "delitem", "discard")
# they tell the same of the same text
PURE = ("len", "isinstance", "bool", "str", "int", "list", "tuple", "format", "join", "strip", "lstrip", "rstrip",
        "split", "partition", "search",
        "match", "finditer", "group", "groups", "start", "end", "span", "startswith", "endswith", "replace", "lower", "upper",
        "debug", "info", "warning", "error", "exception", "format_exc", "append", "count", "index", "get", "keys",
        "values", "items", "copy", "sorted", "max", "min", "sum", "range", "enumerate", "dict", "set")
GROW = ("append", "extend", "insert", "appendleft", "augassign", "add")
CALLS = ("expand_macros", "expand_fn_macro", "process_declarator", "process_type", "eval_expr", "_get_type",
         "_get_struct", "eval_type", "is_fund_type")


def flow(ctx, f, implicit=False):
    return ctx.flow(f, key="c19" + "i" * implicit, implicit=implicit, opaque=lambda x: x.name in CALLS or x.cls is not None and (
        x.name.startswith("add_def")))


def mine(ctx):
    for f in ctx.p.functions.values():
        if not f.module.name.startswith("headers"):
            yield f


def run(ctx):
    loops(ctx)
    growing(ctx)
    macros(ctx)
    declarators(ctx)
    typedefs(ctx)
    structures(ctx)
    for k in ("loop", "iteration", "macro", "declarator", "typedef", "structure"):
        ctx.r.floor(k, 1)


# --- loops --------------------------------------------------------------------

def loops(ctx):
    r = ctx.r
    for f in mine(ctx):
        whiles = [x for x in own_nodes(f.node) if isinstance(x, ast.While)]
        endless = [x for x in own_nodes(f.node) if isinstance(x, ast.For) and "count" in ast.dump(x.iter)]
        if not whiles and not endless:
            continue
        fl = flow(ctx, f, any(isinstance(y, ast.Try) for x in whiles for y in ast.walk(x)))
        seen = set()
        for it in fl.iterends:
            node = it.loops[-1][1]
            if it.func.qual != f.qual:
                continue
            src = it.loops[-1][2]
            count = src is not None and any(x == ("ext", "itertools.count") for x in subterms(src))
            if not isinstance(node, ast.While) and not count:
                continue
            seen.add(node.lineno)
            turn(ctx, f, fl, it, count)
        for x in whiles:
            if x.lineno not in seen:
                # never goes round, or not followed
                r.skip("loop", "%s: loop" % f.qual, "no path goes round") if not any(
                    isinstance(y, (ast.Break, ast.Return, ast.Raise)) for y in x.body) else r.ok(
                        "loop", "%s: loop, done once" % f.qual)


def turn(ctx, f, fl, it, count):
    r = ctx.r
    site = it.loops[-1][0]
    own = it.trace[len(it.args[0]):]
    here = where(it)
    node = it.loops[-1][1]
    what = "%s: loop" % f.qual
    base = it.args[0]
    changed = {}
    for nm, v in it.value.items():
        p = ("phi", site, nm)
        if (site, nm) in fl.phi and isinstance(v, tuple) and fl.strip(v) != p:
            changed[p] = v
    for (s, nm) in fl.phi:
        # an attribute, as self.line
        if s == site and "." in nm and nm not in it.value:
            for (b, k), v in it.state.items():
                if k.startswith(".") and show(b) + k == nm and v != ("phi", site, nm):
                    changed[("phi", site, nm)] = v
    asked = set()
    for a in it.conds:
        asked |= {x for x in subterms(a)}
    removed = [e for e in own if e.kind == "mutate" and e.how in SHRINK]
    added = [e for e in own if e.kind == "mutate" and e.how in GROW]
    # a collection loses an item
    for e in removed:
        t = fl.strip(e.target)
        if any(fl.strip(x) == t for x in asked) or not changed:
            if any(fl.strip(y.target) == t for y in added):
                r.skip("loop", what, "%s loses items and gets some" % show(t)[:40])
            else:
                r.ok("loop", what)
            return
    idx = [x for x in asked if x[0] in ("idx", "elem") and count]
    # a counter looking for a free name, or bounded
    for p, v in list(changed.items()) + [(x, ("bin", "Add", x, C(1))) for x in idx]:
        k = step(p, v)
        if k is None:
            continue
        if k == 0:
            r.bad("loop", what, "the counter does not change", here)
            return
        for a, w in it.conds.items():
            if a[0] == "in" and w and depends(a[1], p, changed):
                t = fl.strip(a[2])
                if any(fl.strip(e.target) == t for e in added) or any(
                        e.kind == "mutate" and e.how == "setitem" and fl.strip(e.target) == t for e in own):
                    r.bad("loop", what, "the names looked at are added to the table", here)
                else:
                    r.ok("loop", what)
                return
            if a[0] in ("lt", "le", "gt", "ge") and (mentions(a[1], p) or mentions(a[2], p)):
                r.check(bounded(a, w, p, k), "loop", what, "the counter goes away from its bound", here)
                return
            if a == p and w and k < 0 or a[0] == "eq" and not w and p in a[1:3]:
                r.ok("loop", what)
                return
    for p, v in changed.items():
        # a flag which is told to stop
        for a, w in it.conds.items():
            if a == p and is_const(v) and bool(v[2]) != w:
                r.ok("loop", what)
                return
            if a == p and any(step(q, y) for q, y in changed.items()) and any(
                    x[0] == "in" and any(step(q, y) and depends(x[1], q, changed) for q, y in changed.items()) for x in subterms(v)):
                r.ok("loop", what)
                return
    # a text gets shorter
    texts = [(p, v) for p, v in changed.items() if mentions(v, p) or any(mentions(x, p) for x in asked)]
    for p, v in texts:
        how = suffix(ctx, fl, v, p)
        if how is True:
            r.ok("loop", what)
            return
    for p, v in texts:
        how = suffix(ctx, fl, v, p)
        if isinstance(how, str):
            r.bad("loop", what, how, here)
            return
    for e in added:
        # made longer up to a size
        t = fl.strip(e.target)
        for a, w in it.conds.items():
            if a not in it.args[1] and any(fl.strip(x) == t for x in subterms(a)):
                side = [any(fl.strip(x) == t for x in subterms(y)) for y in a[1:3]] if a[0] in ("lt", "le", "gt", "ge") else []
                if side == [(a[0] in ("lt", "le")) == w, (a[0] in ("lt", "le")) != w]:
                    r.ok("loop", what)
                else:
                    r.skip("loop", what, "%s is made longer" % show(t)[:40])
                return
    if added and isinstance(node, ast.While) and not [a for a in it.conds if a not in it.args[1]]:
        # the tests are forgotten once what they are about is changed
        t = node.test
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Lt, ast.LtE)) and isinstance(
                t.left, ast.Call) and isinstance(t.left.func, ast.Name) and t.left.func.id == "len":
            r.ok("loop", what)
        else:
            r.skip("loop", what, "what it looks at is made longer")
        return
    if any(mentions(x, p) for p, v in texts for x in asked):
        r.skip("loop", what, "how %s changes is unknown" % ", ".join(sorted(str(p[2]) for p, v in texts)))
        return
    if not changed or not any(any(mentions(x, p) for x in asked) for p in changed):
        calls = [e for e in own if e.kind == "call" and (
            not isinstance(e.target, tuple) or callee(("call", e.target)) not in PURE)]
        own_conds = [a for a in it.conds if a not in it.args[1]]
        looked = [x for a in own_conds for x in subterms(a) if x[0] in ("attr", "unk") or x[0] == "call" and callee(x) not in PURE]
        handed = [e for e in calls if any(fl.strip(y) in [
            fl.strip(x) for a in own_conds for x in subterms(a) if not is_const(x)] for y in given(e))]
        if texts or removed or looked and calls or handed:
            r.skip("loop", what, "it goes round in an unknown way")
        else:
            r.bad("loop", what, "nothing it looks at changes", here)
        return
    r.skip("loop", what, "it goes round in an unknown way")


def mentions(t, p):
    return any(x == p for x in subterms(t))


def depends(t, p, changed):
    """The term changes with the counter."""
    return mentions(t, p) or any(x[0] == "phi" and x in changed and mentions(changed[x], p) for x in subterms(t))


def step(p, v):
    if v[0] == "bin" and v[1] in ("Add", "Sub"):
        for x, y in ((v[2], v[3]), (v[3], v[2])):
            if x == p and is_const(y) and isinstance(y[2], int) and not isinstance(y[2], bool):
                return y[2] if v[1] == "Add" else -y[2]
    return None


def bounded(a, w, p, k):
    """The comparison which lets the loop go on ends being false."""
    op = a[0]
    left = mentions(a[1], p)
    less = op in ("lt", "le")
    if not w:
        less = not less
    # p < bound, or bound < p
    up = less if left else not less
    return k > 0 if up else k < 0


def suffix(ctx, fl, v, p):
    """True if v is a shorter end of p, why not, or None if unknown."""
    v = fl.strip(v)
    if v == p:
        return "the text stays the same"
    if v[0] == "slice" and fl.strip(v[1]) == p:
        lo, hi = v[2], v[3]
        if hi != NONE and lo in (NONE, C(0)):
            return None
        return after(ctx, fl, lo)
    if v[0] == "item" and callee(v[1]) == "expand_fn_macro":
        if v[2] == C(1):
            t = [x for x in v[1][2] if mentions(x, p)]
            return True if t else None
        return "what a macro is replaced by is looked at again"
    if v[0] == "bin" and v[1] == "Add":
        if any(x[0] == "attr" and x[2] == "defs" for x in subterms(v)) or any(
                callee(x) == "expand_fn_macro" for x in subterms(v)):
            return "what a macro is replaced by is looked at again"
        if mentions(v, p):
            return "the text does not get shorter"
        return None
    if v[0] == "item" and v[1][0] == "call" and v[1][1][0] == "method" and v[1][1][2] in ("split", "partition") and mentions(v, p):
        return True
    return None


def after(ctx, fl, lo):
    """The offset is after something which is not empty."""
    lo = fl.strip(lo)
    if is_const(lo):
        return True if isinstance(lo[2], int) and lo[2] > 0 else "the text stays the same" if lo[2] in (0, None) else None
    if lo[0] == "bin" and lo[1] == "Add":
        for x in lo[2:4]:
            if is_const(x) and isinstance(x[2], int) and x[2] > 0:
                return True
        got = [after(ctx, fl, x) for x in lo[2:4]]
        return True if True in got else None
    if lo[0] == "call" and lo[1][0] == "method":
        if lo[1][2] == "end":
            return matched(ctx, fl, lo[1][1])
        if lo[1][2] in ("start", "find", "index"):
            return "the text can stay the same: it starts at the match"
    if lo[0] == "item" and lo[1][0] == "call" and lo[1][1][0] == "method" and lo[1][1][2] == "span":
        return matched(ctx, fl, lo[1][1][1]) if lo[2] == C(1) else "the text can stay the same: it starts at the match"
    return None


def matched(ctx, fl, m):
    """The pattern of a match cannot match nothing."""
    pats = [x[2] for x in subterms(m) if is_const(x) and isinstance(x[2], str) and x[1] == "str"]
    for x in subterms(m):
        if x[0] == "call" and x[1] == ("ext", "re.compile") and x[2] and is_const(x[2][0]):
            return width(x[2][0][2])
    if len(pats) == 1:
        return width(pats[0])
    # the pattern is kept elsewhere
    return True


def width(p):
    try:
        import re._parser as parser
    except ImportError:
        import sre_parse as parser
    try:
        n = parser.parse(p).getwidth()[0]
    except re.error:
        return None
    return True if n > 0 else "its pattern can match nothing"


def growing(ctx):
    """No loop adds to the list it goes through."""
    r = ctx.r
    for f in mine(ctx):
        fors = [x for x in own_nodes(f.node) if isinstance(x, ast.For)]
        if not fors:
            continue
        for x in fors:
            src = ast.dump(x.iter)
            bad = None
            for y in ast.walk(x):
                if isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr in ("append", "extend", "insert") \
                        and ast.dump(y.func.value) == src and isinstance(x.iter, (ast.Name, ast.Attribute, ast.Subscript)):
                    bad = y
                if isinstance(y, ast.AugAssign) and isinstance(y.op, ast.Add) and isinstance(x.iter, ast.Name) and isinstance(
                        y.target, ast.Name) and y.target.id == x.iter.id:
                    bad = bad  # bound again for a tuple, extended for a list: unknown
            if bad is not None and leaves(x, bad):
                bad = None
            r.check(bad is None, "iteration", "%s: loop over %s" % (f.qual, ast.unparse(x.iter)[:40]),
                    "the list is extended while it is gone through", "%s:%d" % (f.qual, x.lineno))


def leaves(loop, node):
    """The loop is left after the statement."""
    for x in ast.walk(loop):
        body = getattr(x, "body", None)
        for b in (body, getattr(x, "orelse", None)):
            if isinstance(b, list) and any(node in ast.walk(s) for s in b) and isinstance(b[-1], (ast.Break, ast.Return, ast.Raise)):
                return True
    return False


# --- recursions ---------------------------------------------------------------

def called(fl, *names):
    for e in fl.events:
        if e.kind == "call" and isinstance(e.target, tuple):
            n = callee(("call", e.target))
            if n in names:
                yield e, n


def given(e):
    return [a for a in list(e.args) + [v for k, v in (e.kwargs or () if hasattr(e, "kwargs") else ())] if isinstance(a, tuple)]


def macros(ctx):
    """Macros are expanded in the arguments, which are parts of the text."""
    r = ctx.r
    for name in ("expand_fn_macro", "expand_macros"):
        f = ctx.CParser.find(name)
        if f is None:
            r.skip("macro", name, "not found")
            continue
        fl = flow(ctx, f)
        text = {("param", p) for p in f.params if p not in ("self", "name")} if hasattr(f, "params") else None
        for e, n in called(fl, "expand_macros", "expand_fn_macro"):
            what = "%s: call of %s" % (f.qual, n)
            args = [a for a in given(e) if a != ("param", "self")]
            if n == "expand_fn_macro":
                args = args[1:]
            for a in args:
                replaced = [x for x in parts(a) if x[0] == "item" and any(
                    y[0] == "attr" and y[2] == "defs" for y in subterms(x[1]))]
                again = [x for x in parts(a) if callee(x) in ("expand_macros", "expand_fn_macro") and not (
                    n == "expand_fn_macro")]
                if replaced or again:
                    r.bad("macro", what, "what a macro is replaced by is looked at again", where(e))
                elif a[0] == "param" and name == n:
                    r.bad("macro", what, "with its own argument", where(e))
                else:
                    r.ok("macro", what)
        if not any(True for _ in called(fl, "expand_macros", "expand_fn_macro")):
            r.ok("macro", "%s: no recursion" % f.qual)
    # what follows a call is a part of the text
    f = ctx.CParser.find("expand_fn_macro")
    if f is None:
        return
    fl = flow(ctx, f)
    for s, o in fl.outcomes:
        if o is None or o[0] == "raise" or any(e.kind == "raise" for e in s.trace):
            continue
        what = "%s: what follows the call" % f.qual
        R = o[1]
        if R[0] not in ("tuple", "list") or len(R[1]) != 2:
            r.skip("macro", what, "it returns %s" % show(R)[:40])
            continue
        t = R[1][1]
        if t[0] == "bin" and t[1] == "Add":
            r.bad("macro", what, "it is made longer: %s" % show(t)[:50], f.qual)
        elif t[0] == "param":
            r.bad("macro", what, "it is the whole text", f.qual)
        elif any(x[0] == "param" and x[1] != "self" for x in subterms(t)):
            r.ok("macro", what)
        else:
            r.skip("macro", what, "it is %s" % show(t)[:40])


def parts(t):
    """The subterms of a term, but for the keys."""
    yield t
    for x in t[1:2] if t[0] in ("item", "slice") else t[1:]:
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                yield from parts(x)
            else:
                for y in x:
                    if isinstance(y, tuple) and y and isinstance(y[0], str):
                        yield from parts(y)


def declarators(ctx):
    """Declarators are processed in their own parts."""
    r = ctx.r
    for name in ("process_declarator", "process_type"):
        f = ctx.CParser.find(name)
        if f is None:
            r.skip("declarator", name, "not found")
            continue
        fl = flow(ctx, f)
        n = 0
        for e, c in called(fl, "process_declarator", "process_type"):
            args = [a for a in given(e) if a != ("param", "self")]
            a = args[-1] if args else NONE
            n += 1
            what = "%s: call of %s" % (f.qual, c)
            if name == "process_type" and c == "process_declarator":
                # its own declarator, whose parts process_declarator looks at
                r.check(a[0] in ("param", "item", "attr", "call", "elem"), "declarator", what, "of %s" % show(a)[:40], where(e))
                continue
            if a[0] == "param":
                r.bad("declarator", what, "of itself", where(e))
            elif any(x[0] == "param" and x[1] != "self" for x in subterms(a)):
                r.ok("declarator", what)
            else:
                r.skip("declarator", what, "of %s" % show(a)[:40])
        if not n:
            r.skip("declarator", f.qual, "no recursion is seen")


class Renamed:
    """Report of obligations under another rule."""

    def __init__(self, r, rule):
        self.r, self.rule = r, rule

    def check(self, ok, rule, *a):
        return self.r.check(ok, self.rule, *a)

    def ok(self, rule, *a):
        return self.r.ok(self.rule, *a)

    def bad(self, rule, *a):
        return self.r.bad(self.rule, *a)

    def skip(self, rule, *a):
        return self.r.skip(self.rule, *a)


class View:
    def __init__(self, ctx, rule):
        self.ctx, self.r = ctx, Renamed(ctx.r, rule)

    def __getattr__(self, name):
        return getattr(self.ctx, name)


def typedefs(ctx):
    """A typedef met before stops the resolution."""
    r = ctx.r
    f = ctx.method(ctx.Type, "eval")
    fl = ctx.flow(f, key="c31", implicit=False, unroll="all", opaque=lambda x: x.name in (
        "process_declarator", "process_type", "eval_expr", "is_fund_type"))
    n = 0
    for s, o in fl.outcomes:
        if o is None or o[0] == "raise" or any(e.kind == "raise" for e in s.trace):
            continue
        R = o[1]
        if callee(R) == "eval" and R[1][0] == "func":
            n += 1
            args = list(R[2])
            used = args[2] if len(args) > 2 else dict(R[3]).get("used")
            circular(View(ctx, "typedef"), f, fl, s, used)
    if not n:
        loop = any(isinstance(x, ast.While) for x in own_nodes(f.node))
        r.skip("typedef", f.qual, "resolved by a loop" if loop else "no recursion is seen")


def structures(ctx):
    """The class of a structure is registered before its members are looked at."""
    r = ctx.r
    f = ctx.Backend.find("_get_struct")
    if f is None:
        r.skip("structure", "_get_struct", "not found")
        return
    fl = flow(ctx, f)
    n = 0
    for e, c in called(fl, "_get_type", "_get_struct"):
        n += 1
        stored = [x for x in e.trace if x.kind == "mutate" and x.how in ("setitem", "setdefault", "update") and any(
            y[0] == "attr" and y[1] == ("param", "self") for y in subterms(fl.strip(x.target)))]
        r.check(stored, "structure", "%s: types of the members" % f.qual,
                "looked at before the class is registered: a structure pointing to itself never ends", where(e))
    if not n:
        r.skip("structure", f.qual, "the types of the members are not looked at there")
