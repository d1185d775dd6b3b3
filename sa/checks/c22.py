"""Reading the result of a call."""

from ..common import where
from ..flow import C, NONE, is_const, mentions, show, subterms
from ..norm import Norm
from ..program import AnalysisBroken

TITLE = "the result of a call gives back the values of the arguments and of the function"
RULES = (
    "path-sensitive value flow of every accessor of the result: indexing by position or "
    "name reads that argument, follows it exactly when its index is recorded as generated, "
    "and extracts its value; the call operator extracts the returned value; iterating, "
    "auto() and assignment use the same indices; unknown names raise; the value of an "
    "object is read from its value attribute only when it is no structure nor union."
)
ASSUMPTIONS = ()
SELF = ("param", "self")


def last(t):
    return str(t[-1]).split(".")[-1]


def extracted(v, fl):
    """x for extract(x)."""
    v = fl.strip(v)
    if v[0] == "call" and v[1][0] in ("func", "method") and last(v[1]) == "_extract_val_":
        a = v[2]
        if v[1][0] == "func":
            return fl.strip(a[1]) if len(a) > 1 else None
        return fl.strip(a[0]) if a else None
    return None


class Result:
    def __init__(self, ctx):
        self.ctx = ctx
        self.cls = ctx.CallResult
        init = ctx.method(self.cls, "__init__")
        fl = ctx.flow(init, key="c22", implicit=False)
        names = [x for x in init.params if x != "self"]
        self.field = {}
        for role, nm in zip(("lib", "rval", "args", "sig", "guessed"), names):
            fields = {e.args[0] for e in fl.events if e.kind == "setattr" and e.target == SELF
                      and fl.strip(e.value) == ("param", nm)}
            copied = {e.args[0] for e in fl.events if e.kind == "setattr" and e.target == SELF
                      and e.value[0] == "call" and e.value[1] in (("builtin", "list"), ("builtin", "tuple"),
                                                                   ("builtin", "frozenset"), ("builtin", "set"))
                      and e.value[2] and fl.strip(e.value[2][0]) == ("param", nm)}
            if role == "args":
                copied = {e.args[0] for e in fl.events if e.kind == "setattr" and e.target == SELF
                          and e.value[0] == "call" and e.value[1] == ("builtin", "list") and e.value[2]
                          and fl.strip(e.value[2][0]) == ("param", nm)}
            got = fields or copied
            ctx.r.check(bool(got), "kept", "%s: %s" % (init.qual, role), "not kept as given", init.qual)
            if got:
                self.field[role] = ("attr", SELF, sorted(got)[0])
        if len(self.field) < 5:
            for role in ("lib", "rval", "args", "sig", "guessed"):
                self.field.setdefault(role, ("attr", SELF, role))

    def flow(self, f):
        return self.ctx.flow(f, key="c22", implicit=False,
                             opaque=lambda x: x.name in ("find_arg", "_extract_val_"))

    def params(self):
        return ("item", self.field["sig"], C(1))

    def by_name(self, i, n, conds, fl):
        """The term is the index of the parameter named n."""
        i = fl.strip(i)
        if i[0] == "call" and i[1][0] in ("func", "method") and last(i[1]) == "find_arg":
            return i[2][-1] == n
        nm = Norm(fl)
        if i[0] == "idx" and fl.strip(i[1]) == self.params():
            e = ("elem",) + i[1:]
            return any(v and a[0] == "eq" and n in a[1:] and ("item", e, C(0)) in a[1:] for a, v in conds.items())
        if i[0] == "call" and i[1][0] == "method" and i[1][2] == "index" and i[2] == (n,):
            b = fl.strip(i[1][1])
            return b[0] == "comp" and not b[4] and fl.strip(b[3]) == self.params() and b[2][0] == "item" and (
                b[2][2] == C(0) and b[2][1][0] == "elem")
        return False


def classes(t):
    return [last(x) for x in t[1]] if t[0] in ("tuple", "consts") and isinstance(t[1], tuple) else [last(t)]


def kind(conds, n):
    """'int', 'str' or None as tested on the path."""
    for a, v in conds.items():
        if not v:
            continue
        if a[0] == "call" and a[1] == ("builtin", "isinstance") and a[2][0] == n and len(classes(a[2][1])) == 1:
            return classes(a[2][1])[0]
        if a[0] in ("is", "eq") and any(x == ("call", ("builtin", "type"), (n,), ()) for x in a[1:]):
            return [last(x) for x in a[1:] if x[0] == "builtin"][0] if any(x[0] == "builtin" for x in a[1:]) else None
    neg = set()
    for a, v in conds.items():
        if v:
            continue
        if a[0] == "call" and a[1] == ("builtin", "isinstance") and a[2][0] == n:
            neg |= set(classes(a[2][1]))
        if a[0] in ("is", "eq") and any(x == ("call", ("builtin", "type"), (n,), ()) for x in a[1:]):
            neg |= {last(x) for x in a[1:] if x[0] == "builtin"}
    return "int" if neg == {"str"} else "str" if neg == {"int"} else "other" if {"int", "str"} <= neg else None


def refusals(ctx, f, fl, n, rule):
    """Positions and names are accepted."""
    r = ctx.r
    swapped = any(a[0] == "call" and a[1] == ("builtin", "isinstance") and a[2][1:] == (n,)
                  for s, o in fl.outcomes for a in s.conds)
    r.check(not swapped, rule, "%s: kind of index" % f.qual, "the index is taken for a class", f.qual)
    for s, o in fl.outcomes:
        if o[0] == "raise" and o[1][0] == "exc" and o[1][1] in ("ValueError", "TypeError"):
            k = kind(s.conds, n)
            r.check(k not in ("int", "str"), rule, "%s: raise %s" % (f.qual, o[1][1]),
                    "an index by %s is refused" % ("name" if k == "str" else "position"), f.qual)


def index_ok(c, i, n, conds, fl):
    k = kind(conds, n)
    if i == n:
        return k in ("int", None)
    return k in ("str", None) and c.by_name(i, n, conds, fl)


def run(ctx):
    r = ctx.r
    c = Result(ctx)
    getitem(ctx, c)
    setitem(ctx, c)
    value(ctx, c)
    auto(ctx, c)
    iterate(ctx, c)
    find(ctx, c)
    extract(ctx)
    for k in ("kept", "argument", "followed", "returned", "auto", "iteration", "by-name", "value"):
        r.floor(k, 1)


def getitem(ctx, c):
    r = ctx.r
    f = ctx.method(c.cls, "__getitem__")
    fl = c.flow(f)
    n = ("param", f.params[1])
    seen = set()
    refusals(ctx, f, fl, n, "argument")
    for s, o in fl.outcomes:
        if o[0] != "return":
            continue
        what = "%s -> %s" % (f.qual, show(o[1])[:90])
        a = extracted(o[1], fl)
        if a is None:
            r.bad("argument", what, "the value is not extracted", f.qual)
            continue
        deref = False
        if a[0] == "attr" and a[2] == "contents":
            deref, a = True, fl.strip(a[1])
        elif a[0] == "item" and a[2] == C(0) and not fl.strip(a[1]) == c.field["args"]:
            deref, a = True, fl.strip(a[1])
        if not (a[0] == "item" and fl.strip(a[1]) == c.field["args"]):
            r.bad("argument", what, "%s is no argument" % show(a)[:60], f.qual)
            continue
        i = fl.strip(a[2])
        r.check(index_ok(c, i, n, s.conds, fl), "argument", what, "argument %s is read instead of the one asked for"
                % show(i)[:50], f.qual)
        g = None
        for x, v in s.conds.items():
            if x[0] == "in" and fl.strip(x[2]) == c.field["guessed"]:
                g = v if fl.strip(x[1]) == i else g
                if fl.strip(x[1]) != i:
                    r.bad("followed", what, "%s is looked up among the generated ones" % show(x[1])[:40], f.qual)
        if g is None and s.conds.get(c.field["guessed"]) is False:
            g = False
        r.check(g is deref, "followed", what, "a generated argument is not followed" if g else
                "an argument given by the caller is followed" if g is False else
                "whether it was generated is not looked at", f.qual)
        seen.add((i == n, bool(deref)))
    for pos in (True, False):
        for d in (True, False):
            r.check((pos, d) in seen, "argument", "%s: by %s%s" % (f.qual, "position" if pos else "name",
                    ", generated" if d else ""), "not possible", f.qual)


def setitem(ctx, c):
    r = ctx.r
    f = c.cls.find("__setitem__")
    if f is None:
        return
    fl = c.flow(f)
    n, v = ("param", f.params[1]), ("param", f.params[2])
    refusals(ctx, f, fl, n, "assignment")
    for s, o in fl.outcomes:
        if o[0] != "return":
            continue
        w = [e for e in s.trace if e.kind == "mutate"]
        ok = len(w) == 1 and w[0].how == "setitem" and fl.strip(w[0].target) == c.field["args"] and (
            index_ok(c, fl.strip(w[0].args[0]), n, s.conds, fl)) and fl.strip(w[0].args[1]) == v
        r.check(ok, "assignment", f.qual, "does not store the value at that argument", f.qual)


def value(ctx, c):
    r = ctx.r
    f = ctx.method(c.cls, "__call__")
    fl = c.flow(f)
    n = 0
    given = [s.conds for s, o in fl.outcomes if o[0] == "return" and fl.strip(o[1]) != NONE]
    for s, o in fl.outcomes:
        if o[0] != "return":
            r.bad("returned", f.qual, "raises", f.qual)
            continue
        v = fl.strip(o[1])
        if v == NONE:
            void = any(mentions(a, ("item", c.field["sig"], C(0))) and all(d.get(a) is (not x) for d in given)
                       for a, x in s.conds.items()) or any(
                a[0] == "is" and NONE in a[1:] and c.field["rval"] in a[1:] and x for a, x in s.conds.items())
            r.check(void, "returned", f.qual + ": None", "a value returned is dropped", f.qual)
            continue
        n += 1
        r.check(extracted(v, fl) == c.field["rval"], "returned", f.qual, "gives %s" % show(v)[:60], f.qual)
    r.check(n > 0, "returned", f.qual + ": value", "never gives the value", f.qual)


def each(c, t, fl):
    """(source, how) for a sequence holding self[x] for each x of the source."""
    nm = Norm(fl)
    t = fl.strip(t)
    while t[0] == "call" and t[1][0] == "builtin" and t[1][1] in ("list", "tuple", "iter") and t[2]:
        t = fl.strip(t[2][0])
    if t[0] == "comp":
        if t[4] if len(t) > 4 else False:
            return None
        elt, src = fl.strip(t[2]), fl.strip(t[3])
    elif t[0] == "call" and t[1] == ("builtin", "map") and len(t[2]) == 2:
        fn = t[2][0]
        if fn[0] in ("attr", "bound", "method") and last(fn) == "__getitem__":
            return fl.strip(t[2][1])
        return None
    elif t[0] == "obj":
        ap = [e for e in fl.events if e.kind == "mutate" and fl.strip(e.target) == t]
        if len({id(e.node) for e in ap}) != 1 or ap[0].how != "append" or len(ap[0].loops) != 1:
            return None
        elt, src = fl.strip(ap[0].args[0]), fl.strip(ap[0].loops[-1][2])
        if any(mentions(a, ("elem", src)) for a in ap[0].conds):
            return None
    else:
        return None
    i = None
    if elt[0] == "item" and elt[1] == SELF:
        i = fl.strip(elt[2])
    elif elt[0] == "call" and elt[1][0] in ("method", "func") and last(elt[1]) == "__getitem__":
        i = fl.strip(elt[2][-1])
    if i is None or i[0] not in ("elem", "idx"):
        return None
    if i[0] == "idx":
        return ("call", ("builtin", "range"), (("call", ("builtin", "len"), (fl.strip(i[1]),), ()),), ())
    return src


def auto(ctx, c):
    r = ctx.r
    f = c.cls.find("auto")
    if f is None:
        raise AnalysisBroken("auto not found")
    # the value of an argument is what indexing gives, wherever it is inlined
    fl = ctx.flow(f, key="c22a", implicit=False, opaque=lambda x: x.name in ("find_arg", "_extract_val_", "__getitem__"))
    for s, o in fl.outcomes:
        if o[0] != "return":
            continue
        r.check(each(c, o[1], fl) == c.field["guessed"], "auto", f.qual,
                "gives %s instead of the generated arguments" % show(o[1])[:80], f.qual)


def iterate(ctx, c):
    r = ctx.r
    f = ctx.method(c.cls, "__iter__")
    fl = ctx.flow(f, key="c22i", implicit=False,
                  opaque=lambda x: x.name in ("find_arg", "_extract_val_", "__getitem__", "__call__"))
    ys = [e for e in fl.events if e.kind == "yield"]
    vals = [e.value or (e.args[0] if e.args else None) for e in ys]
    if not vals:
        for s, o in fl.outcomes:
            if o[0] == "return":
                t = fl.strip(o[1])
                while t[0] == "call" and t[1] in (("builtin", "iter"), ("builtin", "list"), ("builtin", "tuple")) and t[2]:
                    t = fl.strip(t[2][0])
                if t[0] in ("tuple", "list"):
                    vals = list(t[1])
                elif t[0] == "obj":
                    vals = list((s.heap.get((t, "#items")) or ()))
    ok = len(vals) == 2
    r.check(ok, "iteration", f.qual, "gives %d items instead of the value and the arguments" % len(vals), f.qual)
    if not ok:
        return
    v = fl.strip(vals[0])
    r.check(v[0] == "call" and (v[1] == SELF or last(v[1]) == "__call__"), "iteration", f.qual + ": first",
            "is %s" % show(v)[:60], f.qual)
    want = ("call", ("builtin", "range"), (("call", ("builtin", "len"), (c.field["args"],), ()),), ())
    r.check(each(c, vals[1], fl) == want, "iteration", f.qual + ": second", "is %s" % show(vals[1])[:80], f.qual)


def find(ctx, c):
    r = ctx.r
    f = c.cls.find("find_arg")
    if f is None:
        r.ok("by-name", "no find_arg")
        return
    fl = ctx.flow(f, key="c22", implicit=False)
    n = ("param", f.params[1])
    k = 0
    for s, o in fl.outcomes:
        if o[0] != "return":
            continue
        k += 1
        r.check(c.by_name(o[1], n, s.conds, fl), "by-name", f.qual, "gives %s" % show(o[1])[:60], f.qual)
    r.check(k > 0, "by-name", f.qual + ": found", "never finds anything", f.qual)
    uses_index = any(e.kind == "call" and e.target[0] == "method" and e.target[2] == "index" for e in fl.events)
    r.check(uses_index or any(o[0] == "raise" for _, o in fl.outcomes), "by-name", f.qual + ": unknown name",
            "does not raise", f.qual)


def extract(ctx):
    r = ctx.r
    f = ctx.method(ctx.Backend, "_extract_val_")
    fl = ctx.flow(f, key="c22", implicit=False)
    x = ("param", f.params[1])
    n = 0
    for s, o in fl.outcomes:
        if o[0] != "return":
            r.bad("value", f.qual, "raises", f.qual)
            continue
        v = fl.strip(o[1])
        if v == x:
            for a, p in s.conds.items():
                pass
            r.ok("value", f.qual + ": object itself")
            simple = s.conds.get(("call", ("builtin", "hasattr"), (x, C("value")), ()))
            struct = is_struct(s.conds, x)
            r.check(simple is False or struct is not False or simple is None, "value", f.qual + ": object itself",
                    "the value of a simple object is not extracted", f.qual)
            continue
        got = v == ("attr", x, "value") or v[0] == "call" and v[1] == ("builtin", "getattr") and v[2][:2] == (x, C("value"))
        r.check(got, "value", f.qual, "gives %s" % show(v)[:60], f.qual)
        if got:
            n += 1
            r.check(is_struct(s.conds, x) is False, "value", f.qual + ": structures",
                    "a member named value is taken for the value of a structure or union", f.qual)
    r.check(n > 0, "value", f.qual + ": value", "never extracts anything", f.qual)


def is_struct(conds, x):
    """Whether the object is a structure or union, when the path decided it."""
    no = set()
    for a, v in conds.items():
        if a[0] == "call" and a[1] == ("builtin", "isinstance") and a[2][0] == x:
            names = {last(y) for y in subterms(a[2][1]) if y[0] == "ext"}
            if names & {"_SimpleCData"} and v:
                return False
            if names & {"Structure", "Union"}:
                if v:
                    return True
                no |= names
    if {"Structure", "Union"} <= no:
        return False
    return None
