"""Which definition a name given to a proxy stands for."""

import ast

from ..common import where
from ..flow import C, NONE, State, is_const, mentions, show, subterms
from ..program import AnalysisBroken
from .c14 import tag_of, words

TITLE = "a name stands for the first definition in the documented order, prefixes included"
RULES = (
    "the lookup functions are followed, path by path, for any name and one or two unspecified "
    "prefixes, the loops over names and kinds being unrolled: every path giving an object "
    "has it made for one (kind, name), that name being defined for it, all the pairs "
    "preceding it (values, functions, types, structs, unions, enums; bare name first, then "
    "prefixes in order) being excluded by the conditions of the path; every path refusing a "
    "name has all the pairs excluded; what is remembered is remembered under the name asked "
    "for; the object made for a name is built from the definition of that very name; a "
    "name completed with a prefix gives the object reached by the complete name."
)
ASSUMPTIONS = ("values, symbols and definitions whose object is None are skipped by lib.name",
               "at most two prefixes are distinguished (each is handled by the same loop)")
SELF = ("param", "self")
KINDS = ("values", "functions", "types", "structs", "unions", "enums")
OPAQUE = ("_get_function", "_get_type", "_get_struct", "eval_type", "_resolve_struct_alias")


def last(t):
    return str(t[-1]).split(".")[-1]


def prefixes(ctx):
    """Fields of a proxy keeping the prefixes, checked against the argument."""
    init = ctx.method(ctx.CLibrary, "__init__")
    fl = ctx.flow(init, key="c24i", implicit=False, opaque=lambda x: x.name in ("_build_parser", "_link_library"))
    p = ("param", "prefix")
    if "prefix" not in init.params:
        raise AnalysisBroken("no prefix argument")
    fields = set()
    for e in fl.events:
        if e.kind != "setattr" or e.target != SELF:
            continue
        v = fl.strip(e.value)
        if mentions(e.value, p):
            fields.add(e.args[0])
    for e in fl.events:
        if e.kind == "mutate" and e.how in ("extend", "append", "augassign") and any(mentions(x, p) for x in e.args or ()):
            t = fl.strip(e.target)
            if t[0] == "attr" and t[1] == SELF:
                fields.add(t[2])
            fields |= {x.args[0] for x in fl.events if x.kind == "setattr" and x.target == SELF and x.value == e.target}
    if not fields:
        ctx.r.bad("prefixes", init.qual, "the prefixes given are not kept", init.qual)
        return fields, init
    for e in fl.events:
        if e.kind != "setattr" or e.target != SELF or e.args[0] not in fields:
            continue
        cs = e.conds
        given = cs.get(("is", p, NONE)) is not True
        lst = [v for a, v in cs.items() if a[0] == "call" and a[1] == ("builtin", "isinstance") and a[2][0] == p
               and mentions(a[2][1], ("builtin", "list"))]
        what = "%s: %s" % (init.qual, show(e.value)[:50])
        v = e.value
        if cs.get(p) is False and not given:
            continue
        if not given or cs.get(p) is False:
            ctx.r.check(not mentions(v, p) or True, "prefixes", what)
        elif lst == [True]:
            x = v
            while x[0] == "call" and x[1] in (("builtin", "list"), ("builtin", "tuple")) and len(x[2]) == 1:
                x = x[2][0]
            if x[0] == "obj":
                x = fl.strip(x)
            ok = x == p or x[0] == "comp" and not x[4] and fl.strip(x[3]) == p and x[2][0] == "elem"
            ctx.r.check(ok, "prefixes", what, "not the prefixes given, in their order", where(e))
        elif lst == [False]:
            one = v == p or v[0] == "tuple" and v[1] == (p,) or v[0] == "obj" or (
                v[0] == "call" and v[1][0] == "builtin" and v[1][1] in ("list", "tuple"))
            items = getattr(fl, "all_items", None)
            ctx.r.check(one, "prefixes", what, "a single prefix is not kept", where(e))
            if v[0] == "obj" and items is not None:
                got = literal(fl, v, e)
                ctx.r.check(got is None or got == (p,), "prefixes", what + ": one",
                            "a single prefix is not kept as it is", where(e))
    ends = 0
    for s, o in fl.outcomes:
        if o[0] == "raise":
            continue
        ends += 1
        lst = None
        for a, v in s.conds.items():
            if a[0] == "call" and a[1] == ("builtin", "isinstance"):
                if a[2][1:] == (p,):
                    ctx.r.bad("prefixes", "%s: kind of prefix" % init.qual, "it is taken for a class", init.qual)
                if a[2][0] == p and mentions(a[2][1], ("builtin", "list")):
                    lst = v
        for x in fields:
            v = s.heap.get((SELF, "." + x))
            what = "%s: %s at the end" % (init.qual, x)
            ctx.r.check(v is not None, "prefixes", what, "no prefixes are kept", init.qual)
            if v is not None and v[0] == "obj":
                items = s.heap.get((v, "#items"))
                if items is not None and s.conds.get(("is", p, NONE)) is not True and s.conds.get(p) is not False:
                    ctx.r.check(p not in items or lst is not True, "prefixes", what, "the list is kept in a list", init.qual)
                    ctx.r.check(p in items or lst is True or any(y[0] == "star" for y in items), "prefixes", what,
                                "a single prefix is not kept", init.qual)
    return fields, init


def tables(ctx, fields, init):
    """The table of objects has a part for each kind."""
    r = ctx.r
    call = ctx.method(ctx.CLibrary, "__call__")
    cl = ctx.flow(call, key="c24t", implicit=False, opaque=lambda x: True)
    k = ("param", call.params[1])
    own = {a[2] for e in cl.events for a in e.conds if a[0] == "in" and a[1] == k and a[2][0] == "attr" and a[2][1] == SELF}
    fl = ctx.flow(init, key="c24u", implicit=False, unroll="all", opaque=lambda x: True)
    for t in sorted(own, key=show):
        have, sure = set(), True
        for e in fl.events:
            if e.kind == "setattr" and e.target == SELF and e.args[0] == t[2]:
                v = e.value
                keys = None
                if v[0] == "comp" and fl.strip(v[3])[0] in ("consts", "tuple", "list"):
                    keys = [x[2] for x in fl.strip(v[3])[1] if is_const(x)]
                elif v[0] == "obj":
                    got = {h[1] for s, o in fl.outcomes for h in s.heap if h[0] == v}
                    keys = [x for x in KINDS if any(repr(x) in str(h) for h in got)]
                if keys is None:
                    sure = False
                else:
                    have |= set(keys)
            if e.kind == "mutate" and e.how == "setitem" and (
                    fl.strip(e.target) == t or e.target == t or any(
                        x.kind == "setattr" and x.args[0] == t[2] and x.value == e.target for x in fl.events)):
                x = fl.strip(e.args[0])
                if is_const(x):
                    have.add(x[2])
                else:
                    sure = False
        if not sure or not have:
            r.skip("tables", "%s: %s" % (init.qual, t[2]), "kinds not determined")
            continue
        for kd in KINDS:
            r.check(kd in have, "tables", "%s: %s[%s]" % (init.qual, t[2], kd), "objects of that kind are refused", init.qual)


def literal(fl, v, e):
    st = getattr(e, "state", None)
    if st is None:
        return None
    return fl.all_items(v, st)


class Path:
    def __init__(self, conds, trace):
        self.conds, self.trace = conds, trace


class Ev:
    def __init__(self, lk, e):
        self.kind, self.how, self.where, self.func = e.kind, e.how, e.where, e.func
        self.target = lk.canon(e.target)
        self.args = [lk.canon(x) for x in e.args or ()]
        self.value = lk.canon(e.value) if e.value is not None else None


class Lookup:
    def __init__(self, ctx, fields, n):
        self.ctx = ctx
        self.P = [("param", "p%d" % i) for i in range(1, n + 1)]
        self.fields = fields

    def flow(self, f, opaque=(), implicit=False):
        st = State()
        for x in self.fields:
            st.heap[(SELF, "." + x)] = ("tuple", tuple(self.P))
        names = OPAQUE + tuple(opaque)
        return self.ctx.flow(f, key=None, implicit=implicit, state=st, max_states=400000, unroll="all",
                             opaque=lambda x: x.name in names)

    def names(self, n):
        return [n] + [("bin", "Add", p, n) for p in self.P]

    def name_of(self, t):
        return t

    def canon(self, t):
        """Normalises the ways of writing prefix + name."""
        if not isinstance(t, tuple):
            return t
        if t and t[0] == "fmt" and len(t) == 2:
            parts = [self.canon(x) for x in t[1] if x not in (C(""), C("%s%s"), C("{}{}"))]
            if len(parts) == 1:
                return parts[0]
            if len(parts) == 2 and all(x[0] == "param" for x in parts):
                return ("bin", "Add", parts[0], parts[1])
        if t and t[0] == "call" and t[1][0] == "method" and t[1][2] == "format" and t[1][1] == C("{}{}"):
            return self.canon(("fmt", t[2]))
        if t and t[0] == "call" and t[1][0] == "method" and t[1][2] in ("join", "str.join") and t[1][1] == C("") and (
                len(t[2]) == 1 and t[2][0][0] == "tuple"):
            return self.canon(("fmt", t[2][0][1]))
        return tuple([self.canon(x) if isinstance(x, tuple) else x for x in t])

    def outcomes(self, fl, n):
        """(conditions, outcome, trace) of the possible paths, names written in one way."""
        names = self.names(n)
        for s, o in fl.outcomes:
            conds = {self.canon(a): v for a, v in s.conds.items()}
            if any(v and a[0] == "is" and NONE in a[1:] and (a[1] in names or a[2] in names)
                   for a, v in conds.items()):
                continue  # names are strings
            if any(v and a[0] == "eq" and n in a[1:] and (a[1] in names[1:] or a[2] in names[1:])
                   for a, v in conds.items()):
                continue  # an empty prefix: the same as the bare name
            yield Path(conds, [Ev(self, e) for e in s.trace]), (o[0], self.canon(o[1]) if o[0] == "return" else o[1])


def defs_of(t, fl):
    """k for the definitions of kind k."""
    t = fl.strip(t)
    if t[0] == "call" and t[1][0] == "method" and t[1][2] in ("get", "keys") and (
            fl.strip(t[1][1]) == ("attr", SELF, "_defs_") or is_defs(t[1][1], fl)):
        if t[1][2] == "keys":
            return None
        return t[2][0]
    if t[0] == "call" and t[1][0] == "method" and t[1][2] in ("keys", "copy"):
        return defs_of(t[1][1], fl)
    if t[0] == "item" and is_defs(t[1], fl):
        return t[2]
    if t[0] == "item" and fl.strip(t[1]) == SELF:
        return t[2]
    if t[0] == "call" and t[1][0] in ("func", "method") and last(t[1]) == "__getitem__":
        return t[2][-1]
    return None


def is_defs(t, fl):
    t = fl.strip(t)
    return t[0] == "attr" and t[2] in ("_defs_", "defs") and (
        t[1] == SELF or fl.strip(t[1]) == ("attr", SELF, "_headers_"))


def got(t, fl):
    """(kind, name) of definitions[kind][name] and of .get(name)."""
    t = fl.strip(t)
    if t[0] == "item":
        k = defs_of(t[1], fl)
        return (k, t[2]) if k is not None else None
    if t[0] == "call" and t[1][0] == "method" and t[1][2] == "get" and len(t[2]) == 1:
        k = defs_of(t[1][1], fl)
        return (k, t[2][0]) if k is not None else None
    return None


def proxied(t, fl):
    """(kind, name) of lib(kind, name)."""
    t = fl.strip(t)
    if t[0] == "call" and not t[3]:
        a = t[2]
        if t[1] == SELF and len(a) == 2:
            return a
        if t[1][0] == "method" and last(t[1]) == "__call__" and fl.strip(t[1][1]) == SELF and len(a) == 2:
            return a
        if t[1][0] == "func" and last(t[1]) == "__call__" and len(a) == 3 and a[0] == SELF:
            return a[1:]
    return None


def defined(conds, k, n, fl):
    """True / False when the path decides whether (k, n) is defined (and of use)."""
    out = None
    for a, v in conds.items():
        if a[0] == "in" and a[1] == n and defs_of(a[2], fl) == k:
            if not v:
                return False
            out = True if out is None else out
        elif a[0] == "is" and NONE in a[1:]:
            x = a[1] if a[2] == NONE else a[2]
            if proxied(x, fl) == (k, n):
                if v:
                    return False
            elif got(x, fl) == (k, n):
                if v:
                    return False
                out = True
    return out


def run(ctx):
    r = ctx.r
    fields, init = prefixes(ctx)
    tables(ctx, fields, init)
    by_attribute(ctx, fields)
    by_kind(ctx, fields)
    made(ctx, fields)
    function(ctx)
    for k in ("prefixes", "order", "refused", "kind-order", "built-from", "remembered"):
        r.floor(k, 1)


def by_attribute(ctx, fields):
    r = ctx.r
    f = ctx.method(ctx.CLibrary, "__getattr__")
    lk = Lookup(ctx, fields, 1)
    fl = lk.flow(f, ("__call__", "_make_obj_"))
    n = ("param", f.params[1])
    pairs = [(C(k), x) for k in KINDS for x in lk.names(n)]
    memo = set()
    paths = list(lk.outcomes(fl, n))
    for s, o in paths:
        for e in s.trace:
            if e.kind == "mutate" and e.how in ("setitem", "setdefault") and len(e.args) == 2:
                b = fl.strip(e.target)
                if b[0] == "attr" and b[1] == SELF:
                    memo.add(b)
                    if r.check(e.args[0] == n, "remembered", "%s: %s" % (f.qual, show(e.args[1])[:50]),
                               "the object is remembered under %s" % show(e.args[0])[:40], where(e)):
                        x = lookup_pair(lk, e.args[1], fl)
                        r.check(x in pairs, "remembered", "%s: what is kept for a name" % f.qual,
                                "%s is remembered" % show(e.args[1])[:40], where(e))
    for s, o in paths:
        if o[0] == "raise":
            left = [p for p in pairs if not settled(s.conds, p, pairs, fl)]
            if any(v and a[0] == "call" and last(a[1]) in ("startswith", "endswith") for a, v in s.conds.items()):
                continue  # special names are refused at once
            r.check(not left, "refused", "%s: no such name" % f.qual,
                    "refused although %s was not looked up" % (left and show(left[0][1]) + " in " + left[0][0][2]), f.qual)
            continue
        if o[0] != "return":
            continue
        v = fl.strip(o[1])
        if v[0] == "item" and fl.strip(v[1]) in memo and v[2] == n or (
                v[0] == "call" and v[1][0] == "method" and v[1][2] == "get" and fl.strip(v[1][1]) in memo and v[2][:1] == (n,)):
            kept = [e for e in s.trace if e.kind == "mutate" and e.how in ("setitem", "setdefault")
                    and fl.strip(e.target) in memo and e.args[0] == n]
            if not kept:
                known = any(v2 and a[0] == "in" and a[1] == n and fl.strip(a[2]) in memo or (
                    not v2 and a[0] == "is" and NONE in a[1:] and v in a[1:]) for a, v2 in s.conds.items())
                r.check(known or v[0] == "item", "remembered", "%s: read back" % f.qual,
                        "it may not have been remembered", f.qual)
                continue
            v = fl.strip(kept[-1].args[1])
        x = lookup_pair(lk, v, fl)
        what = "%s: %s" % (f.qual, "%s %s" % (x[0][2], show(x[1])) if x and is_const(x[0]) else show(v)[:60])
        if x not in pairs:
            r.bad("order", what, "this is not the object of the kind and name looked for", f.qual)
            continue
        i = pairs.index(x)
        early = [p for p in pairs[:i] if not settled(s.conds, p, pairs, fl)]
        r.check(not early, "order", what, "given although %s may be defined" % (
            early and "%s %s" % (early[0][0][2], show(early[0][1]))), f.qual)
        r.check(defined(s.conds, x[0], x[1], fl), "order", what + " is defined",
                "looked up although it is not known to be defined", f.qual)
    g = ctx.CLibrary.find("__getattribute__")
    if g is not None:
        r.bad("order", g.qual, "the lookup of attributes is intercepted", g.qual)


def settled(conds, p, pairs, fl):
    """The path excludes the pair: not defined, or that kind holds None for the name."""
    if defined(conds, p[0], p[1], fl) is False:
        return True
    for q in pairs[:pairs.index(p)]:
        if q[0] == p[0] and defined(conds, q[0], q[1], fl) is False and any(
                v and a[0] == "in" and a[1] == q[1] and defs_of(a[2], fl) == q[0] for a, v in conds.items()):
            return True
    return False


def lookup_pair(lk, t, fl):
    p = proxied(t, fl)
    if p is None:
        return None
    return (p[0], lk.name_of(p[1]))


def by_kind(ctx, fields):
    """__call__: remembers what is made under the kind and name asked for."""
    r = ctx.r
    f = ctx.method(ctx.CLibrary, "__call__")
    lk = Lookup(ctx, fields, 1)
    fl = lk.flow(f, ("_make_obj_",), True)
    k, n = ("param", f.params[1]), ("param", f.params[2])

    def is_made(t):
        t = fl.strip(t)
        return t[0] == "call" and t[1][0] in ("func", "method") and last(t[1]) == "_make_obj_" and (
            t[2][-2:] == (k, n) and not t[3])

    def cell(t):
        t = fl.strip(t)
        if t[0] == "item" and t[2] == n:
            b = fl.strip(t[1])
            return b[0] == "item" and b[2] == k and fl.strip(b[1])[:2] == ("attr", SELF)
        return False

    if not any(e.kind == "call" and e.value and is_made(e.value) for e in fl.events):
        raise AnalysisBroken("%s does not make the objects" % f.qual)
    for s, o in lk.outcomes(fl, n):
        stored = [e for e in s.trace if e.kind == "mutate" and e.how in ("setitem", "setdefault")]
        for e in stored:
            if len(e.args) == 2 and is_made(e.args[1]):
                b = fl.strip(e.target)
                r.check(e.args[0] == n and b[0] == "item" and b[2] == k, "remembered",
                        "%s: %s" % (f.qual, show(e.args[1])[:40]), "under another kind or name", where(e))
        if o[0] != "return":
            continue
        v = o[1]
        ok = cell(v) or is_made(v)
        r.check(ok, "remembered", "%s returns %s" % (f.qual, show(v)[:50]), "not the object of that kind and name", f.qual)
        if is_made(v) and not cell(v):
            r.check(any(len(e.args) == 2 and is_made(e.args[1]) for e in stored), "same-object",
                    "%s: remembered" % f.qual, "another object is made on every lookup", f.qual)


def made(ctx, fields):
    r = ctx.r
    f = ctx.method(ctx.CLibrary, "_make_obj_")
    lk = Lookup(ctx, fields, 2)
    fl = lk.flow(f, ("__call__",))
    k, n = ("param", f.params[1]), ("param", f.params[2])
    names = lk.names(n)
    tagged = ("structs", "unions", "enums")

    def kinds(conds):
        out = set(KINDS)
        for a, v in conds.items():
            if a[0] == "eq" and k in a[1:]:
                c = a[1] if a[2] == k else a[2]
                if is_const(c):
                    out &= {c[2]} if v else set(KINDS) - {c[2]}
            elif a[0] == "in" and a[1] == k and a[2][0] in ("consts", "tuple"):
                vals = {x[2] for x in a[2][1] if is_const(x)}
                out &= vals if v else set(KINDS) - vals
        return out

    def is_def(conds, kd, x):
        """Is x a name of that kind on the path? None when undecided."""
        got = defined(conds, k, x, fl)
        got2 = defined(conds, C(kd), x, fl)
        got = got2 if got is None else got
        if got is None:
            return None
        if got or kd not in tagged:
            return got
        t = defined(conds, C("types"), x, fl)
        return t

    for s, o in lk.outcomes(fl, n):
        starts = [(words(a), v) for a, v in s.conds.items() if words(a) is not None]
        for w, v in starts:
            r.check(w, "alias", "%s: typedefs of enumerations" % f.qual, "the test for them can never hold", f.qual)
        enum = next((v for w, v in starts if "enum " in w), None)
        ks = {x for x in kinds(s.conds) if not any(
            defined(s.conds, k, y, fl) is not None and defined(s.conds, C(x), y, fl) is not None
            and defined(s.conds, k, y, fl) != defined(s.conds, C(x), y, fl) for y in names)}
        if not ks:
            continue
        if o[0] == "raise":
            for kd in sorted(ks):
                ks2 = [x for x in names if is_def(s.conds, kd, x) is not False]
                if not ks2 or kd not in KINDS:
                    r.ok("refused", "%s: %s" % (f.qual, kd))
                    continue
                # a typedef of something else
                if kd in tagged and defined(s.conds, C("types"), ks2[0], fl) is not False and defined(
                        s.conds, C(kd), ks2[0], fl) in (False, None) and any(
                        mentions(a, C("%s " % kd[:-1])) or mentions(a, C(kd[:-1])) for a in s.conds):
                    r.check(kd != "enums" or enum is not True, "refused", "%s: alias" % f.qual,
                            "a typedef of an enumeration is refused", f.qual)
                    continue
                r.check(kd == "enums" and defined(s.conds, k, ks2[0], fl) is True
                        and defined(s.conds, C(kd), ks2[0], fl) is False, "refused", "%s: %s" % (f.qual, kd),
                        "%s is refused although it may be defined" % show(ks2[0])[:40], f.qual)
            continue
        if o[0] != "return":
            continue
        v = fl.strip(o[1])
        for kd in sorted(ks):
            x = which(lk, v, kd, k, fl, s)
            what = "%s: %s %s" % (f.qual, kd, show(x)[:40] if x else show(v)[:50])
            if x not in names:
                r.bad("built-from", what, "the object given is not that of the name", f.qual)
                continue
            r.ok("built-from", what)
            alias(r, f, lk, fl, s, v, names, enum)
            i = names.index(x)
            early = [y for y in names[:i] if is_def(s.conds, kd, y) is not False]
            r.check(not early, "kind-order", what, "given although %s may be defined" % (early and show(early[0])), f.qual)
            r.check(is_def(s.conds, kd, x), "kind-order", what + " is defined", "it may not be defined", f.qual)
            if i and kd in ("functions",):
                kept = proxied(v, fl) is not None or cached(v, k, x, fl) or any(
                    e.kind == "mutate" and e.how in ("setitem", "setdefault") and e.args[:1] == (x,) for e in s.trace)
                r.check(kept, "same-object", what, "another object than the one of the complete name", f.qual)


def alias(r, f, lk, fl, s, v, names, enum):
    """The enumeration behind a typedef."""
    g = got(v, fl)
    if g is None or g[1] in names or not any(
            x[0] == "call" and x[1][0] in ("func", "method") and last(x[1]) == "eval_type" for x in subterms(g[1])):
        return
    what = "%s: enumeration of a typedef" % f.qual
    r.check(enum is not False, "alias", what, "another type is looked for among the enumerations", f.qual)
    t = fl.strip(g[1])
    if t[0] == "item" and is_const(t[2]):
        r.check(any(tag_of(t, fl, x) is not None for x in names), "alias", what + ": tag", "it is %s" % show(t)[-60:], f.qual)


def cached(v, k, x, fl):
    if v[0] == "item" and v[2] == x:
        b = fl.strip(v[1])
        return b[0] == "item" and b[2] == k and fl.strip(b[1])[:2] == ("attr", SELF)
    return False


def which(lk, v, kd, k, fl, s):
    """Name whose object of that kind the term is."""
    p = proxied(v, fl)
    if p is not None:
        return lk.name_of(p[1]) if p[0] in (k, C(kd)) else None
    if v[0] == "item" and not got(v, fl) and cached(v, k, v[2], fl):
        return lk.name_of(v[2])
    if v[0] == "call" and v[1][0] in ("func", "method"):
        a = v[2][1:] if v[1][0] == "func" else v[2]
        nm = last(v[1])
        if nm == "_get_function":
            return lk.name_of(a[0]) if kd == "functions" and len(a) == 1 else None
        if nm == "_get_struct":
            return lk.name_of(a[1]) if kd in ("structs", "unions") and a[0] in (k, C(kd)) else None
        if nm == "_get_type":
            g = got(a[0], fl)
            return lk.name_of(g[1]) if kd == "types" and g and g[0] in (k, C("types")) else None
        return None
    g = got(v, fl)
    if g is None:
        return None
    if kd == "values" and g[0] in (k, C("values")):
        return lk.name_of(g[1])
    if kd == "enums" and g[0] in (k, C("enums")):
        if defined(s.conds, C("enums"), g[1], fl) is True or defined(s.conds, k, g[1], fl) is True:
            return lk.name_of(g[1])
        # name of the enum behind a typedef
        for x in subterms(g[1]):
            if x[0] == "call" and x[1][0] in ("func", "method") and last(x[1]) in ("eval_type", "_resolve_struct_alias"):
                for y in lk.names(("param", "name")):
                    if defined(s.conds, C("types"), y, fl) is True and defined(s.conds, C("enums"), y, fl) is False or (
                            defined(s.conds, k, y, fl) is False):
                        later = [z for z in lk.names(("param", "name")) if defined(s.conds, C("types"), z, fl) is True
                                 or defined(s.conds, k, z, fl) is True]
                        if later:
                            return later[0]
    return None


def function(ctx):
    """The wrapper of a function is made of its symbol and of its signature."""
    r = ctx.r
    f = ctx.method(ctx.Backend, "_get_function")
    init = ctx.method(ctx.CFunction, "__init__")
    fl = ctx.flow(f, key="c24f", implicit=False, opaque=lambda x: x is init)
    n = ("param", f.params[1])
    seen = 0
    for s, o in fl.outcomes:
        if o[0] != "return":
            continue
        v = fl.strip(o[1])
        what = "%s returns %s" % (f.qual, show(v)[:50])
        new = [e for e in s.trace if e.kind == "call" and e.value is not None and fl.strip(e.value) == v]
        a = None
        if v[0] in ("new", "call"):
            a = v[2]
        if a is None:
            a = new[-1].args if new else None
        if a is None:
            r.bad("built-from", what, "not a function wrapper", f.qual)
            continue
        flat = [fl.strip(x) for x in a] + [fl.strip(x) for _, x in (new[-1].kwargs or () if new else ())]
        seen += 1
        sym = [x for x in flat if x[0] == "call" and x[1] == ("builtin", "getattr") and len(x[2]) == 2
               and fl.strip(x[2][0]) == ("attr", SELF, "_lib_") and x[2][1] == n]
        sym += [x for x in flat if x[0] == "item" and fl.strip(x[1]) == ("attr", SELF, "_lib_") and x[2] == n]
        r.check(sym, "symbol", what, "not the symbol of that name", f.qual)
        r.check(any(got(x, fl) == (C("functions"), n) for x in flat), "symbol", what + ": signature",
                "not the signature of that name", f.qual)
        r.check(n in flat, "symbol", what + ": name", "not named after it", f.qual)
    if not seen:
        raise AnalysisBroken("%s returns no wrapper" % f.qual)
