"""Definitions are compared, shown, copied and saved with all they hold."""

import ast

from ..common import where
from ..flow import C, NONE, is_const, show, subterms
from .c29 import callee
from .c31 import Lin, Seqs

TITLE = "definitions are compared, shown, copied and saved with all they hold"
RULES = (
    "case analysis of the comparison of types: for every kind of object compared and every "
    "outcome of comparing its parts and its qualifiers, each path gives what it should (equal "
    "if the parts are, and the qualifiers of another type; different is the opposite); types "
    "are built of all their parts and refuse another number of qualifiers; what they are "
    "rebuilt from when copied or loaded is all their parts, and no hook drops their "
    "attributes; their text holds their class, all their items and their qualifiers or "
    "packing; all the tables are printed; looking for a name or a text goes through all of them."
)
ASSUMPTIONS = (
    "pickle and copy rebuild an object from __getnewargs__ and its attributes when no hook is defined",
)
HOOKS = ("__reduce__", "__reduce_ex__", "__getstate__", "__setstate__", "__copy__", "__deepcopy__",
         "__getnewargs_ex__")


def flow(ctx, f, **kw):
    return ctx.flow(f, key="c20", implicit=False, **kw)


def run(ctx):
    compared(ctx)
    built(ctx)
    saved(ctx)
    shown(ctx)
    printed(ctx)
    found(ctx)
    for k in ("compared", "built", "saved", "shown", "printed", "found"):
        ctx.r.floor(k, 1)


def classes(ctx):
    yield ctx.Type
    for c in ctx.p.classes.values():
        if c is not ctx.Type and c.module is ctx.Type.module and any(
                isinstance(b, str) and b in ("dict", "builtins.dict", "tuple", "list") or not isinstance(b, str) and b.name == "Compound"
                for b in c.bases):
            yield c


def ended(fl):
    for s, o in fl.outcomes:
        if o is not None and o[0] != "raise" and not any(e.kind == "raise" for e in s.trace):
            yield s, (o[1] if len(o) > 1 else NONE)


# --- comparison -----------------------------------------------------------------

NI = "NotImplemented"
UNK = "unknown"
# (is a type, is a tuple, same parts, same qualifiers)
CASES = ((True, True, True, True), (True, True, True, False), (True, True, False, True),
         (True, True, False, False), (False, True, True, None), (False, True, False, None),
         (False, False, False, None))
NAMES = ("a type", "a tuple", "another object")


class Case:
    def __init__(self, ctx, fl, other, case):
        self.ctx, self.fl, self.other, self.case = ctx, fl, other, case
        self.me = ("param", "self")

    def equal(self):
        t, tup, c, q = self.case
        return c and q if t else c

    def truth(self, v):
        # NotImplemented is true
        return True if v == NI else v

    def sides(self, a, b):
        a, b = self.fl.strip(a), self.fl.strip(b)
        return (a, b) if mentions(a, self.me) or not mentions(b, self.me) else (b, a)

    def value(self, t):
        t = self.fl.strip(t)
        T, tup, c, q = self.case
        if is_const(t):
            return bool(t[2]) if isinstance(t[2], (bool, int)) else UNK
        if t[0] in ("ext", "builtin", "global") and t[1].endswith("NotImplemented"):
            return NI
        if t[0] == "not":
            v = self.value(t[1])
            return UNK if v == UNK else not self.truth(v)
        if t[0] in ("and", "or"):
            vals = [self.value(x) for x in (t[1] if isinstance(t[1], tuple) and t[1] and isinstance(t[1][0], tuple) else t[1:])]
            stop = t[0] == "or"
            for v in vals:
                if v == UNK:
                    return UNK
                if self.truth(v) == stop:
                    return v
            return vals[-1]
        if t[0] in ("ife", "ifexp", "cond") and len(t) == 4:
            v = self.value(t[1])
            return UNK if v == UNK else self.value(t[2] if self.truth(v) else t[3])
        if t[0] == "call":
            n = callee(t)
            args = t[2]
            if n == "isinstance" and len(args) == 2 and self.fl.strip(args[0]) == self.other:
                k = args[1]
                ks = k[1] if k[0] in ("tuple", "list") else (k,)
                got = []
                for k in ks:
                    nm = str(k[1]).rsplit(".", 1)[-1] if len(k) > 1 else ""
                    if k[0] == "call" and callee(k) == "type" or k[0] == "attr" and k[2] == "__class__":
                        nm = "Type"
                    got.append(T if nm == "Type" else tup if nm == "tuple" else UNK)
                return True if True in got else UNK if UNK in got else False
            if n == "hasattr" and len(args) == 2 and self.fl.strip(args[0]) == self.other and args[1] == C("type_quals"):
                return T
            if n == "bool" and len(args) == 1:
                v = self.value(args[0])
                return v if v == UNK else self.truth(v)
            if t[1][0] == "method" and t[1][2] in ("super.__eq__", "super.__ne__") or t[1][0] in ("method", "attr", "ext", "builtin") and (
                    n in ("__eq__", "__ne__") and len(args) == 2 and args[0] == self.me):
                if args[-1] != self.other:
                    return UNK
                return NI if not tup else c == n.endswith("eq__")
            if n in ("__eq__", "__ne__") and (t[1][0] == "func" or t[1][0] == "method"):
                return self.equal() == (n == "__eq__") if tup else (NI if n == "__eq__" else True)
            return UNK
        if t[0] in ("eq", "ne", "is", "isnot", "cmp"):
            for x, y in ((t[1], t[2]), (t[2], t[1])):
                known = NI if y[-1] == NI else y[2] if is_const(y) else UNK
                if known is None or known == NI or isinstance(known, bool):
                    v = self.value(x)
                    if v != UNK:
                        return (v is known or v == known) == (t[0] in ("eq", "is"))
            v = self.same(*self.sides(t[1], t[2]))
            return v if v == UNK or t[0] in ("eq", "is") else not v
        return UNK

    def same(self, a, b):
        T, tup, c, q = self.case
        if a == self.me and b == self.other:
            return self.equal()
        if a == ("attr", self.me, "type_quals"):
            if b == ("attr", self.other, "type_quals"):
                return q if T else UNK
            if b[0] == "call" and callee(b) == "getattr" and len(b[2]) == 3 and b[2][0] == self.other:
                if T:
                    return q
                return self.same(a, b[2][2]) if b[2][2] == a else False if is_const(b[2][2]) else UNK
            if b == a:
                return True
        if a[0] == b[0] and a[0] in ("item", "slice") and a[2:] == b[2:] and a[1] == ("attr", self.me, "type_quals") and b[1] == (
                "attr", self.other, "type_quals"):
            # one of them, which can be the same
            return True if T else UNK
        if callee(a) == "type" and callee(b) == "type" or a[0] == b[0] == "attr" and a[2] == b[2] == "__class__":
            return T
        if callee(b) == "type" and a[0] == "class" or callee(a) == "type" and b[0] == "class":
            return T
        if callee(a) == "tuple" == callee(b) or callee(a) == "list" == callee(b):
            if a[2][0] == self.me and b[2][0] == self.other:
                return c if tup else UNK
        if a[0] == b[0] == "tuple" and len(a[1]) == len(b[1]):
            vals = [self.same(*self.sides(x, y)) for x, y in zip(a[1], b[1])]
            return UNK if UNK in vals else all(vals)
        return UNK


def mentions(t, x):
    return any(y == x for y in subterms(t))


def compared(ctx):
    r = ctx.r
    for name, sign in (("__eq__", True), ("__ne__", False)):
        f = ctx.Type.methods.get(name)
        what = "Type.%s" % name
        if f is None:
            if name == "__eq__":
                # a tuple: the qualifiers are not looked at
                r.bad("compared", what, "types are compared as tuples, without their qualifiers", ctx.Type.qual)
            else:
                # that of tuples does not look at the qualifiers
                r.bad("compared", what, "types are told different as tuples, without their qualifiers", ctx.Type.qual)
            continue
        fl = flow(ctx, f)
        other = ("param", f.params[1])
        for case in CASES:
            k = Case(ctx, fl, other, case)
            kind = NAMES[0 if case[0] else 1 if case[1] else 2]
            here = "%s, %s with %s parts%s" % (
                what, kind, "the same" if case[2] else "other", "" if case[3] is None else " and %s qualifiers" % (
                    "the same" if case[3] else "other"))
            expect = (k.equal() is True) == sign
            done = False
            unknown = None
            for s, R in ended(fl):
                vals = [(k.value(a), w) for a, w in s.conds.items()]
                if any(v != UNK and bool(k.truth(v)) != w for v, w in vals):
                    continue
                v = k.value(R)
                sure = all(v != UNK for v, w in vals)
                if v == UNK:
                    unknown = "it gives %s" % show(R)[:50]
                    continue
                # comparing with NotImplemented goes on with the other, then by identity
                v = (not sign) if v == NI and not case[1] else v
                if v == expect:
                    done = True
                elif sure:
                    r.bad("compared", here, "told %s" % ("equal" if v == sign else "different"), f.qual)
                    done = True
                else:
                    unknown = "depends on %s" % ", ".join(show(a)[:30] for (a, w), (v, _) in zip(s.conds.items(), vals) if v == UNK)
            if unknown:
                r.skip("compared", here, unknown)
            elif done:
                r.ok("compared", here)
            else:
                r.skip("compared", here, "no path")
    h = ctx.Type.methods.get("__hash__")
    if h is not None:
        fl = flow(ctx, h)
        for s, R in ended(fl):
            # a type equals the tuple of its parts
            r.check(not any(x[0] == "attr" and x[2] == "type_quals" for x in subterms(R)), "compared", "Type.__hash__",
                    "equal objects have other hashes", h.qual)
    for c in classes(ctx):
        if c is ctx.Type:
            continue
        for name in ("__eq__", "__ne__"):
            f = c.methods.get(name)
            if f is None:
                r.ok("compared", "%s: as dicts" % c.qual)
                continue
            fl = flow(ctx, f)
            text = ast.unparse(f.node)
            if "super()" in text or "dict.__" in text or "pack" in text and "members" in text or "dict(self)" in text:
                r.ok("compared", "%s.%s" % (c.qual, name))
            elif ("members" in text) != ("pack" in text):
                r.bad("compared", "%s.%s" % (c.qual, name), "only a part is compared", f.qual)
            else:
                r.skip("compared", "%s.%s" % (c.qual, name), "unknown comparison")


# --- construction, copies -----------------------------------------------------------

def whole(fl, t, spec, rest):
    """The sequence holds the base type, then all the declarators."""
    t = fl.strip(t)
    while t[0] == "call" and callee(t) in ("tuple", "list") and t[2]:
        t = fl.strip(t[2][0])
    if t == ("param", "self") and rest[0] == "slice":
        return True
    if t in (spec, rest):
        return "only %s" % show(t)[:40]
    if t[0] == "slice" and t[1] == ("param", "self"):
        return (t[2] in (NONE, C(0)) and t[3] == NONE and t[4] in (NONE, C(1))) or (
            "only %s" % show(t)[:40])
    if t[0] == "bin" and t[1] == "Add":
        parts = [t[2], t[3]]
    elif t[0] in ("list", "tuple"):
        parts = list(t[1])
    else:
        return None
    flat = []
    for x in parts:
        if t[0] == "bin" or x[0] == "star":
            y = fl.strip(x[1] if x[0] == "star" else x)
            while y[0] == "call" and callee(y) in ("tuple", "list") and y[2]:
                y = fl.strip(y[2][0])
            if y[0] in ("list", "tuple"):
                flat += list(y[1])
            else:
                flat.append(("star", y))
        else:
            flat.append(x)
    if flat == [("star", ("param", "self"))]:
        return True
    if len(flat) == 2 and fl.strip(flat[0]) == spec and flat[1][0] == "star" and fl.strip(flat[1][1]) in (
            rest, ("call", ("builtin", "tuple"), (rest,), ())):
        return True
    for x in flat:
        y = fl.strip(x[1]) if x[0] == "star" else x
        if y[0] == "slice" and bare(fl, y[1]) == rest and not (y[2] in (NONE, C(0)) and y[3] == NONE):
            return "only %s" % show(y)[:40]
    if all(x == spec or x[0] == "star" and (x[1] == rest or x[1][0] == "slice" and x[1][1] == rest[1]
                                            or x[1][0] == "slice" and x[1][1] == rest)
           or x[0] == "item" and x[1] in (rest, spec[1] if len(spec) > 1 and isinstance(spec[1], tuple) else None)
           or is_const(x) for x in flat):
        return "it is %s" % show(t)[:60]
    return None


def bare(fl, t):
    t = fl.strip(t)
    while t[0] == "call" and callee(t) in ("tuple", "list") and t[2]:
        t = fl.strip(t[2][0])
    return t


def verdict(r, rule, what, w, here):
    if w is True:
        r.ok(rule, what)
    elif w is None:
        r.skip(rule, what, "unknown form")
    else:
        r.bad(rule, what, w, here)


def built(ctx):
    r = ctx.r
    f = ctx.Type.methods.get("__new__")
    if f is None:
        r.bad("built", "Type.__new__", "a tuple is not built of several arguments", ctx.Type.qual)
    else:
        fl = flow(ctx, f)
        a = f.node.args
        rest = ("param", a.vararg.arg) if a.vararg else NONE
        spec = ("param", f.params[1])
        for s, R in ended(fl):
            v = R
            if v[0] == "call" and callee(v).endswith("__new__") and len(v[2]) == 2:
                verdict(r, "built", "Type.__new__", whole(fl, v[2][1], spec, rest), f.qual)
            else:
                r.skip("built", "Type.__new__", "it gives %s" % show(R)[:40])
    f = ctx.Type.methods.get("__init__")
    if f is None:
        r.bad("built", "Type.__init__", "the qualifiers are not kept", ctx.Type.qual)
        return
    fl = flow(ctx, f)
    a = f.node.args
    rest = ("param", a.vararg.arg) if a.vararg else NONE
    kw = ("param", a.kwarg.arg) if a.kwarg else NONE
    names = [x.arg for x in a.kwonlyargs]
    n = 0
    some = False
    for s, R in ended(fl):
        v = s.heap.get((("param", "self"), ".type_quals"))
        n += 1
        if v is None:
            r.bad("built", "Type.__init__: qualifiers", "they are not kept on some path", f.qual)
            continue
        given = given_quals(fl, v, kw, names)
        some = some or given
        empty = [w for x, w in s.conds.items() if given_quals(fl, x, kw, names)]
        empty += [not w for x, w in s.conds.items() if x[0] in ("is", "eq") and NONE in x[1:3] and any(
            given_quals(fl, y, kw, names) for y in x[1:3])]
        empty += [w for x, w in s.conds.items() if x[0] == "in" and x[1] == C("type_quals")]
        none = blank(fl, v, rest)
        if not given and not none:
            if any(x == kw or x[0] == "param" and x[1] in names for x in subterms(v)):
                r.skip("built", "Type.__init__: qualifiers", "they are %s" % show(v)[:50])
            else:
                r.bad("built", "Type.__init__: qualifiers", "they are %s" % show(v)[:50], f.qual)
            continue
        if none and not given and True in empty or given and not none and False in empty:
            r.bad("built", "Type.__init__: qualifiers", "those given are dropped", f.qual)
            continue
        r.ok("built", "Type.__init__: qualifiers")
        if given and not none:
            # as many as parts
            ok = unknown = False
            partial = 0
            for x, w in s.conds.items():
                if x[0] in ("eq", "ne", "lt", "le", "gt", "ge") and any(callee(y) == "len" and fl.strip(y[2][0]) == fl.strip(v) for y in x[1:3] if y[0] == "call"):
                    other = [y for y in x[1:3] if not (callee(y) == "len" and fl.strip(y[2][0]) == fl.strip(v))]
                    size = lin(fl, other[0], rest) if other else None
                    if x[0] in ("eq", "ne"):
                        if (x[0] == "eq") == w and size == Lin(1, ((("len", rest), 1),)):
                            ok = True
                        elif size is None:
                            unknown = True
                    else:
                        partial += 1
                elif any(y == fl.strip(v) for y in subterms(x)) and x != v and not (x[0] in ("is", "eq") and NONE in x[1:3]):
                    unknown = True
            if ok:
                r.ok("built", "Type.__init__: number of qualifiers")
            elif unknown or partial > 1 or any(
                    e.kind == "call" and callee(("call", e.target)) not in ("len", "tuple", "bool") and any(
                        isinstance(y, tuple) and any(z == fl.strip(v) for z in subterms(y)) for y in e.args) for e in s.trace):
                r.skip("built", "Type.__init__: number of qualifiers", "how it is checked is unknown")
            else:
                r.bad("built", "Type.__init__: number of qualifiers", "another number of qualifiers is accepted", f.qual)
    if not n:
        r.skip("built", "Type.__init__", "no path")
    elif not some:
        r.bad("built", "Type.__init__: qualifiers", "those given are not kept", f.qual)
    # structures
    for c in classes(ctx):
        f = c.methods.get("__init__")
        if c.name != "Compound" or f is None:
            continue
        fl = flow(ctx, f)
        a = f.node.args
        rest = ("param", a.vararg.arg) if a.vararg else NONE
        kw = ("param", a.kwarg.arg) if a.kwarg else NONE
        names = [x.arg for x in a.kwonlyargs]
        for s, R in ended(fl):
            got = {}
            for e in s.trace:
                if e.kind == "call" and isinstance(e.target, tuple) and callee(("call", e.target)) in ("super.__init__", "__init__", "update"):
                    for x in e.args:
                        if isinstance(x, tuple):
                            got.update(entries(fl, s, x))
                    for k, v in kwargs(e):
                        got[k] = v
                elif e.kind == "mutate" and e.how == "setitem" and fl.strip(e.target) == ("param", "self") and is_const(e.args[0]):
                    got[e.args[0][2]] = e.args[1]
            for k in ("members", "pack"):
                what = "%s: %s" % (f.qual, k)
                v = got.get(k)
                if v is None:
                    if got:
                        r.bad("built", what, "not kept", f.qual)
                    else:
                        r.skip("built", what, "how it is kept is unknown")
                    continue
                v = fl.strip(v)
                if k == "members":
                    while v[0] == "call" and callee(v) in ("list", "tuple") and v[2]:
                        v = fl.strip(v[2][0])
                    if v[0] in ("list", "tuple") and len(v[1]) == 1 and v[1][0][0] == "star":
                        v = fl.strip(v[1][0][1])
                    if v == rest:
                        r.ok("built", what)
                    elif v[0] in ("slice", "call", "comp", "const"):
                        r.bad("built", what, "they are %s" % show(v)[:50], f.qual)
                    else:
                        r.skip("built", what, "they are %s" % show(v)[:50])
                elif given_quals(fl, v, kw, names, "pack"):
                    r.ok("built", what)
                elif is_const(v) and not any(x == kw for x in subterms(v)):
                    w = [b for x, b in s.conds.items() if x[0] == "in" and x[1] == C("pack")]
                    r.check(False in w, "built", what, "it is %s" % show(v)[:50], f.qual)
                else:
                    r.skip("built", what, "it is %s" % show(v)[:50])


def kwargs(e):
    k = getattr(e, "kwargs", None)
    return [x for x in (k.items() if isinstance(k, dict) else k or ()) if isinstance(x, tuple) and len(x) == 2]


def entries(fl, s, x):
    x = fl.strip(x)
    if x[0] == "dict":
        return {k[2]: v for k, v in x[1] if isinstance(k, tuple) and is_const(k)}
    if x[0] == "obj":
        items = s.heap.get((x, "#items"))
        if items:
            return {k[2]: v for k, v in items if isinstance(k, tuple) and is_const(k)}
        return {k[1][2] if isinstance(k[1], tuple) else k[1].strip("[]'"): v for k, v in s.heap.items()
                if k[0] == x and isinstance(k[1], str) and k[1].startswith("[")}
    return {}


def given_quals(fl, v, kw, names, name="type_quals"):
    """What the caller gave, or nothing in its place."""
    v = fl.strip(v)
    if v[0] == "param" and v[1] == name and name in names:
        return True
    if v[0] == "call" and v[1][0] == "method" and fl.strip(v[1][1]) == kw and v[1][2] in ("pop", "get") and v[2] and v[2][0] == C(name):
        return True
    if v[0] == "item" and fl.strip(v[1]) == kw and v[2] == C(name):
        return True
    if v[0] == "call" and callee(v) == "tuple" and len(v[2]) == 1:
        return given_quals(fl, v[2][0], kw, names, name)
    if v[0] in ("or", "alts"):
        return any(isinstance(x, tuple) and given_quals(fl, x, kw, names, name) for x in (
            v[1] if isinstance(v[1], tuple) and v[1] and isinstance(v[1][0], tuple) else v[1:]))
    return False


def blank(fl, v, rest):
    """As many empty tuples as parts."""
    v = fl.strip(v)
    if v[0] == "bin" and v[1] == "Mult":
        for x, y in ((v[2], v[3]), (v[3], v[2])):
            if lin(fl, y, rest) == Lin(1, ((("len", rest), 1),)):
                return True
    return v[0] == "call" and callee(v) == "tuple" and any(x == rest for x in subterms(v)) and any(
        x == ("tuple", ()) for x in subterms(v))


def lin(fl, t, rest):
    t = fl.strip(t)
    if is_const(t) and isinstance(t[2], int):
        return Lin(t[2])
    if t[0] == "bin" and t[1] in ("Add", "Sub"):
        a, b = lin(fl, t[2], rest), lin(fl, t[3], rest)
        if a is None or b is None:
            return None
        return a + b if t[1] == "Add" else a - b
    if callee(t) == "len":
        x = fl.strip(t[2][0])
        if x == rest:
            return Lin(0, ((("len", rest), 1),))
        if x == ("param", "self"):
            return Lin(1, ((("len", rest), 1),))
        if x == ("slice", ("param", "self"), C(1), NONE, NONE) or x == (
                "call", ("builtin", "tuple"), (("slice", ("param", "self"), C(1), NONE, NONE),), ()):
            return Lin(0, ((("len", rest), 1),))
    return None


def saved(ctx):
    r = ctx.r
    for c in classes(ctx):
        f = c.methods.get("__getnewargs__")
        if c is ctx.Type and f is None and "__getnewargs_ex__" not in c.methods and "__reduce__" not in c.methods and (
                "__reduce_ex__" not in c.methods):
            # the one of tuples gives the tuple as a single argument
            r.bad("saved", "%s.__getnewargs__" % c.qual, "a type is rebuilt from a single argument", c.qual)
        if f is not None:
            fl = flow(ctx, f)
            me = ("param", "self")
            for s, R in ended(fl):
                verdict(r, "saved", "%s.__getnewargs__" % c.qual,
                        whole(fl, R, ("item", me, C(0)), ("slice", me, C(1), NONE, NONE)), f.qual)
        hooks = [h for h in HOOKS if h in c.methods]
        for h in hooks:
            f = c.methods[h]
            text = ast.unparse(f.node)
            what = "%s.%s" % (c.qual, h)
            if c is ctx.Type:
                # its attributes
                if "type_quals" in text or "__dict__" in text or "super()" in text or "tuple.__" in text:
                    r.skip("saved", what, "what it keeps is unknown")
                elif h in ("__getnewargs_ex__",):
                    r.skip("saved", what, "what it keeps is unknown")
                else:
                    r.bad("saved", what, "the qualifiers are not kept", f.qual)
            elif "members" in text and "pack" not in text:
                r.bad("saved", what, "the packing is not kept", f.qual)
            else:
                r.skip("saved", what, "what it keeps is unknown")
        if not hooks:
            r.ok("saved", "%s: its attributes and items" % c.qual)


# --- texts --------------------------------------------------------------------------

def fields(t):
    """What a text is made of."""
    for x in subterms(t):
        yield x


def over(fl, t, src, whole_only=True):
    """The text goes through the source; the part of it if it is cut."""
    cut = None
    for x in subterms(t):
        if x[0] in ("comp",) and len(x) > 3:
            it = fl.strip(x[3])
            while it[0] == "call" and callee(it) in ("sorted", "list", "tuple", "enumerate") and it[2]:
                it = fl.strip(it[2][0])
            if it == src or it[0] == "call" and it[1][0] == "method" and fl.strip(it[1][1]) == src and it[1][2] == "items":
                if x[4] and x[4] != frozenset():
                    cut = "some are left out"
                    continue
                return True
            if it[0] == "slice" and fl.strip(it[1]) == src:
                cut = "only a part of them: %s" % show(it)[:40]
        if callee(x) in ("repr", "str", "pformat", "tuple", "list", "dict", "map", "__repr__", "super.__repr__") and any(
                y == src for y in (x[2] + (x[1][1],) if x[1][0] == "method" else x[2])):
            return True
    return cut


def shown(ctx):
    r = ctx.r
    me = ("param", "self")
    want = {
        "Type": (("items", me),),
        "Compound": (("items", ("item", me, C("members"))),),
        "Enum": (("items", me),),
    }
    for c in classes(ctx):
        f = c.methods.get("__repr__")
        if f is None:
            if c.name in want:
                r.skip("shown", "%s: its text" % c.qual, "that of its base class")
            continue
        base = next((b.name for b in c.mro() if b.name in want), None)
        if base is None:
            continue
        fl = flow(ctx, f)
        for s, R in ended(fl):
            what = "%s: its text" % c.qual
            if is_const(R):
                r.bad("shown", what, "it is %s" % show(R)[:40], f.qual)
                continue
            for label, src in want[base]:
                o = over(fl, R, src)
                if o is True:
                    r.ok("shown", what + ", its items")
                elif o is None and any(x[0] in ("phi", "obj", "unk") for x in subterms(R)):
                    r.skip("shown", what + ", its items", "how it is built is unknown")
                elif o is None and mentions_items(R, src, me):
                    r.skip("shown", what + ", its items", "how it is built is unknown")
                else:
                    r.bad("shown", what + ", its items", o or "they are not shown", f.qual)
            extra = {"Type": ("attr", me, "type_quals"), "Compound": ("item", me, C("pack"))}.get(base)
            if extra is None:
                continue
            label = what + (", its qualifiers" if base == "Type" else ", its packing")
            if any(x == extra for x in subterms(R)):
                r.ok("shown", label)
                continue
            objs = [x for x in subterms(R) if x[0] in ("obj", "phi", "unk", "comp", "call")]
            if any(y == extra for e in s.trace if e.kind == "mutate" and fl.strip(e.target) in objs
                   for z in e.args if isinstance(z, tuple) for y in subterms(z)):
                r.ok("shown", label)
                continue
            # left out when there is none
            none = unknown = False
            for a, w in s.conds.items():
                if not any(x == extra for x in subterms(a)):
                    continue
                if base == "Type":
                    if callee(a) == "any" and len(a[2]) == 1 and not w and covers(fl, a[2][0], extra) is not False:
                        none = True
                    elif callee(a) == "any" and (not w or covers(fl, a[2][0], extra)) or a == extra:
                        pass
                    elif a == extra and not w:
                        none = True
                    else:
                        unknown = True
                else:
                    if a[0] in ("is", "eq") and NONE in a[1:3] and w:
                        none = True
                    elif a == extra and not w:
                        # 0 is not told
                        pass
                    elif a[0] in ("is", "eq") and not w or a == extra and w:
                        pass
                    else:
                        unknown = True
            if none:
                r.ok("shown", label)
            elif unknown:
                r.skip("shown", label, "left out under unknown conditions")
            else:
                r.bad("shown", label, "left out although there is one", f.qual)


def covers(fl, t, extra):
    t = fl.strip(t)
    if t == extra:
        return True
    if t[0] == "slice":
        return False
    if t[0] == "comp":
        it = fl.strip(t[3])
        return it == extra if it[0] != "slice" else False
    return None


def mentions_items(R, src, me):
    return any(x == src or x[0] in ("elem", "item") and x[1] == src for x in subterms(R)) and src != me


# --- tables -------------------------------------------------------------------------

def printed(ctx):
    r = ctx.r
    me = ("param", "self")
    f = ctx.CParser.find("print_all")
    g = ctx.CParser.find("__str__")
    for f, filed in ((f, True), (g, False)):
        if f is None:
            r.skip("printed", "print_all", "not found")
            continue
        fl = flow(ctx, f)
        name = f.params[1] if len(f.params) > 1 else None
        done = False
        tables = ("attr", me, "defs")
        per = ("attr", me, "file_defs")
        for it in fl.iterends:
            src = it.loops[-1][2]
            if src is None:
                continue
            over = fl.strip(src)
            while over[0] == "call" and callee(over) in ("list", "tuple", "sorted", "iter") and over[2]:
                over = fl.strip(over[2][0])
            full = over in (("attr", me, "data_list"), tables) or over[0] == "call" and over[1][0] == "method" and over[1][1] == tables or (
                over[0] == "slice" and over[1] == ("attr", me, "data_list"))
            if not full:
                continue
            what = "%s: every table" % f.qual
            done = True
            if over[0] == "slice":
                r.check(over[2] in (NONE, C(0)) and over[3] == NONE, "printed", what, "only %s" % show(over)[:40], f.qual)
            own = it.trace[len(it.args[0]):]
            terms = [v for v in it.value.values() if isinstance(v, tuple)] + [
                a for e in own for a in (e.args or ()) if isinstance(a, tuple)]
            seen = set()
            for t in terms:
                for x in subterms(t):
                    if x[0] == "item" and x[1] == tables:
                        seen.add("all")
                    elif x[0] == "item" and x[1][0] == "item" and x[1][1] == per:
                        seen.add("file")
                    elif x[0] == "item" and x[1][0] == "elem" and over[0] == "call":
                        seen.add("all")
            one = [w for a, w in it.conds.items() if name and a[0] in ("is", "eq") and NONE in a[1:3] and ("param", name) in a[1:3]]
            one += [not w for a, w in it.conds.items() if name and a == ("param", name)]
            need = "all" if not filed or one == [True] else "file" if one == [False] else None
            if need is None:
                r.skip("printed", what, "which tables is unknown")
            elif need in seen:
                r.ok("printed", what)
            elif any(x[0] in ("unk", "obj", "phi") and x != me for t in terms for x in subterms(t)) and not seen and not own:
                r.skip("printed", what, "what is printed is unknown")
            else:
                r.bad("printed", what, "%s definitions are not printed" % ("the" if need == "all" else "its own"), f.qual)
        for x in fl.iterexits:
            if x.args[1] is not None and x.args[1][0] in ("break", "return") and x.loops[-1][2] is not None and fl.strip(
                    x.loops[-1][2]) == ("attr", me, "data_list"):
                r.bad("printed", "%s: every table" % f.qual, "the loop is left before the last one", f.qual)
        if not done:
            r.skip("printed", f.qual, "no loop over the tables is seen")


def found(ctx):
    r = ctx.r
    me = ("param", "self")
    for name, table in (("find", "file_defs"), ("find_text", "files")):
        f = ctx.CParser.find(name)
        if f is None:
            r.skip("found", name, "not found")
            continue
        fl = flow(ctx, f)
        arg = ("param", f.params[1])
        outer = False
        for it in fl.iterends:
            chain = [fl.strip(x[2]) for x in it.loops if x[2] is not None]
            if chain and any(y == ("attr", me, table) for y in subterms(chain[0])):
                outer = True
            own = it.trace[len(it.args[0]):]
            deep = it.loops[-1][2]
            asked = {a: w for a, w in it.conds.items() if a not in it.args[1]}
            tests = [(a, w) for a, w in asked.items() if mentions(a, arg) and callee(a) != "isinstance"
                     and any(y[0] in ("elem", "item", "idx") for y in subterms(a))]
            if not tests:
                continue
            kept = [e for e in own if e.kind == "mutate" and e.how in ("append", "insert", "extend", "add", "augassign")]
            what = "%s: what matches" % f.qual
            for a, w in tests:
                plain = a[0] in ("eq", "in") or callee(a) in ("match", "fullmatch", "search") or a[0] in ("is",) or a[0] == "call"
                if not plain or len(tests) > 1:
                    r.skip("found", what, "tested by %s" % show(a)[:40])
                    break
                if a[0] in ("is", "eq") and NONE in a[1:3]:
                    w = not w
                if w:
                    r.check(kept, "found", what, "not told", where(it))
                else:
                    r.check(not kept, "found", what, "told though it does not match", where(it))
        for x in fl.iterexits:
            if x.func.qual == f.qual and x.args[1] is not None and x.args[1][0] in ("break", "return"):
                r.bad("found", "%s: what matches" % f.qual, "the first one only", where(x))
        if not outer:
            r.skip("found", f.qual, "no loop over %s is seen" % table)
