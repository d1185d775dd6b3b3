"""Structure classes mirror the definition they are built from."""

from ..common import where
from ..flow import C, NONE, is_const, mentions, show, subterms
from ..program import AnalysisBroken

TITLE = "the class of a structure mirrors its definition and is kept only when complete"
RULES = (
    "every path of the construction of a structure or union class is followed: the class "
    "derives from Structure or Union according to its kind; packing and anonymous members "
    "are set before the fields and only there; it is registered before the type of any "
    "member is resolved and removed again on every path on which that, or laying out the "
    "fields, fails; the fields are one per member, in order, each made of the name, the "
    "type resolved from the type of that very member, and what follows the default value "
    "(bit width)."
)
ASSUMPTIONS = ("ctypes lays out members as the C compiler does for the same declarations",)
KINDS = (("structs", "ctypes.Structure"), ("unions", "ctypes.Union"))
M = ("member",)


def analyse(ctx, kind, **kw):
    f = ctx.method(ctx.Backend, "_get_struct")
    return f, ctx.flow(f, key="c13" + kind, implicit="all", max_states=60000,
                       args={f.params[1]: C(kind)},
                       opaque=lambda x: x.name in ("_get_type", "_resolve_struct_alias"), **kw)


def is_class(t):
    return t[0] == "obj" and t[1] == "class" or (
        t[0] == "call" and t[1] == ("builtin", "type") and len(t[2]) == 3)


def bases(t, fl):
    if t[0] == "obj":
        return [fl.strip(b) for b in t[3]] if len(t) > 3 else []
    b = fl.strip(t[2][1])
    return list(b[1]) if b[0] == "tuple" else [b]


def registered(trace, fl):
    """{(registry, key): class} at the end of the trace, and the keys ever used."""
    reg = {}
    for e in trace:
        if e.kind != "mutate":
            continue
        t = fl.strip(e.target)
        if e.how in ("setitem", "setdefault") and len(e.args) == 2 and is_class(fl.strip(e.args[1])):
            reg[(t, fl.strip(e.args[0]))] = fl.strip(e.args[1])
        elif e.how in ("delitem", "pop") and e.args:
            reg.pop((t, fl.strip(e.args[0])), None)
        elif e.how == "clear":
            for k in [k for k in reg if k[0] == t]:
                del reg[k]
    return reg


class Rows:
    """What the rows iterated over are, in terms of the members of the definition."""

    def __init__(self, fl, trace):
        self.fl = fl
        self.trace = trace
        self.busy = set()

    def members(self, t):
        """The term is the list of members, or a copy of it in the same order."""
        while True:
            t = self.fl.strip(t)
            if t[0] == "call" and t[1][0] == "method" and t[1][2] == "copy" and not t[2]:
                t = t[1][1]
            elif t[0] == "call" and t[1][0] == "builtin" and t[1][1] in (
                    "list", "tuple", "iter", "enumerate") and len(t[2]) == 1:
                t = t[2][0]
            elif t[0] == "call" and t[1][0] == "ext" and t[1][1] in ("copy.copy", "copy.deepcopy") and t[2]:
                t = t[2][0]
            elif t[0] == "slice" and t[2] in (NONE, C(0)) and t[3] == NONE and t[4] == NONE:
                t = t[1]
            elif t[0] == "list" and len(t[1]) == 1 and t[1][0][0] == "star":
                t = t[1][0][1]
            else:
                break
        return t[0] == "item" and t[2] == C("members"), t

    def lists(self, t):
        """Values of the items of a list built locally: [(value, event)] or None."""
        is_m, t = self.members(t)
        if is_m or t[0] != "obj":
            return None
        out = []
        for e in self.fl.events:
            if e.kind == "mutate" and self.fl.strip(e.target) == t:
                if e.how == "append":
                    out.append((e.args[0], e))
                elif e.how == "setitem":
                    out.append((e.args[1], e))
                else:
                    return None
        return out or None

    def expand(self, t):
        """Alternatives of a term, over M."""
        fl = self.fl
        t = fl.strip(t)
        if t in self.busy:
            return []
        if t[0] == "elem":
            src = t[1]
            is_m, b = self.members(src)
            out = []
            if is_m:
                out.append(M)
                # rows replaced in place
                for e in self.fl.events:
                    if e.kind == "mutate" and e.how == "setitem" and self.members(e.target)[1] == b:
                        self.busy.add(t)
                        out += self.expand(e.args[1])
                        self.busy.discard(t)
                return dedup(out)
            s = fl.strip(src)
            if s[0] == "comp":
                return self.expand(s[2])
            vals = self.lists(src)
            if vals is None:
                return [t]
            self.busy.add(t)
            for v, e in vals:
                out += self.expand(v)
            self.busy.discard(t)
            return dedup(out)
        if t[0] == "phi":
            self.busy.add(t)
            out = []
            for v in fl.phi.get(t[1:3]) or ():
                out += self.expand(v)
            self.busy.discard(t)
            return dedup(out) or [t]
        if t[0] == "item" and is_const(t[2]) and isinstance(t[2][2], int):
            return self.again(t, [project(x, t[2][2]) for x in self.expand(t[1])])
        if t[0] == "slice" and is_const(t[2]) and t[3] == NONE and t[4] == NONE:
            return self.again(t, [cut(x, t[2][2] or 0) for x in self.expand(t[1])])
        if t[0] == "call" and t[1] == ("builtin", "tuple") and len(t[2]) == 1 and t[2][0][0] == "list":
            return [("tuple", t[2][0][1])]
        if t[0] == "bin" and t[1] == "Add":
            out = []
            for a in self.expand(t[2]):
                for b in self.expand(t[3]):
                    x = a[1] if a[0] in ("tuple", "list") else (("star", a),)
                    y = b[1] if b[0] in ("tuple", "list") else (("star", b),)
                    out.append(("tuple", tuple(x) + tuple(y)))
            return out
        if t[0] == "list":
            return [("tuple", t[1])]
        return [t]

    def again(self, t, xs):
        out = []
        self.busy.add(t)
        for x in dedup(xs):
            if x[0] in ("item", "slice") and x[1] != M and x != t:
                out += self.expand(x)
            elif x != t:
                out.append(x)
        self.busy.discard(t)
        return dedup(out) or [t]


def dedup(xs):
    return list(dict.fromkeys(xs))


def tail(t):
    """(sequence, first index) of the end of a sequence."""
    while t[0] == "call" and t[1][0] == "builtin" and t[1][1] in ("tuple", "list") and len(t[2]) == 1:
        t = t[2][0]
    if t[0] == "slice" and is_const(t[2]) and t[3] == NONE and t[4] == NONE:
        return t[1], t[2][2] or 0
    return None


def project(x, k):
    if x[0] in ("tuple", "list"):
        for i, y in enumerate(x[1]):
            if y[0] == "star":
                s = tail(y[1])
                if s and k >= i:
                    return ("item", s[0], C(s[1] + k - i))
                return ("item", x, C(k))
            if i == k:
                return y
    if x[0] == "slice" and is_const(x[2]) and x[3] == NONE:
        return ("item", x[1], C((x[2][2] or 0) + k))
    return ("item", x, C(k))


def cut(x, k):
    if x[0] in ("tuple", "list"):
        for i, y in enumerate(x[1]):
            if i == k:
                if y[0] == "star" and len(x[1]) == i + 1:
                    return y[1]
                return ("tuple", x[1][i:])
            if y[0] == "star":
                s = tail(y[1])
                if s and len(x[1]) == i + 1:
                    return ("slice", s[0], C(s[1] + k - i), NONE, NONE)
                break
        else:
            return ("tuple", ())
    if x[0] == "slice" and is_const(x[2]) and x[3] == NONE:
        return ("slice", x[1], C((x[2][2] or 0) + k), NONE, NONE)
    return ("slice", x, C(k), NONE, NONE)


def over_m(rows, t):
    """Alternatives of a term where item/slice of rows are reduced to M."""
    return rows.expand(t)


def known(e, loop):
    """Everything tested in the iteration of the loop leading to the event."""
    conds = {}
    for x in e.trace or ():
        if any(y[0] == loop[0] for y in x.loops or ()):
            conds.update(x.conds)
    conds.update(e.conds)
    return conds


def is_none(rows, conds):
    """Truth of 'the member has no name', None when not tested."""
    for a, pol in conds.items():
        if a[0] in ("is", "eq") and NONE in a[1:]:
            for x in a[1:]:
                if x != NONE and ("item", M, C(0)) in over_m(rows, x):
                    return pol
    return None


def fresh_row(rows, e):
    """The event replaces a member by one with a generated name."""
    if e.kind != "mutate" or e.how not in ("append", "setitem") or not e.args:
        return False
    for x in rows.expand(e.args[-1]):
        if x[0] == "tuple" and len(x[1]) > 1 and mentions(x[1][1:], M) or (
                x[0] == "tuple" and len(x[1]) > 1 and any(
                    mentions(z, M) for y in x[1][1:] for z in subs(rows, y))):
            if not any(mentions(n, M) for n in rows.expand(x[1][0])):
                return True
    return False


def subs(rows, y):
    return rows.expand(y[1]) if y[0] == "star" else rows.expand(y)


def run(ctx):
    r = ctx.r
    for kind, base in KINDS:
        f, fl = analyse(ctx, kind)
        built = 0
        for s, o in fl.outcomes:
            reg = registered(s.trace, fl)
            classes = [e for e in s.trace if e.kind == "mutate" and len(e.args or ()) == 2 and
                       is_class(fl.strip(e.args[1]))]
            fields = [e for e in s.trace if e.kind == "setattr" and e.args[0] == "_fields_"]
            what = "%s of %s" % (f.qual, kind)
            if o[0] == "raise":
                fail = [e for e in s.trace if e.kind == "fail"]
                if fail and fail[-1].target and (fail[-1].target[0] in ("func", "setattr")):
                    r.check(not reg, "unregistered-on-failure", "%s: failure of %s" % (
                        what, show_fail(fail[-1].target)),
                        "the class stays registered although it has no fields", f.qual)
                elif not fail and classes:
                    r.check(not reg, "unregistered-on-failure", what + ": error raised",
                            "the class stays registered although it has no fields", f.qual)
                continue
            if any(e.kind == "handler" for e in s.trace) and classes:
                if not fields or not reg:
                    r.bad("unregistered-on-failure", what, "a failure is ignored, the class is incomplete", f.qual)
            if classes and not fields:
                r.bad("fields", what, "a class is returned without its fields", f.qual)
            if not fields:
                continue
            built += 1
            for e in fields:
                one(ctx, fl, f, s, e, kind, base, what)
            # nothing changes afterwards
            last = fields[-1]
            for e in s.trace:
                if e.kind == "setattr" and e.args[0] in ("_pack_", "_anonymous_") and (
                        s.trace.index(e) > s.trace.index(last)):
                    r.bad("layout-first", "%s: %s" % (what, e.args[0]), "set after the fields, without effect", where(e))
        if not built:
            raise AnalysisBroken("no construction of a class found in %s for %s" % (f.qual, kind))
        # the class is known to the types resolved
        for e in fl.events:
            if e.kind == "call" and e.target[0] == "func" and e.target[1].endswith("._get_type"):
                reg = registered(e.trace, fl)
                r.check(bool(reg), "registered-first", "%s: member type of %s" % (e.func.qual, kind),
                        "the type of a member is resolved before the class is registered: a "
                        "structure pointing to itself never ends", where(e))
    for k in ("layout-first", "fields", "kind", "registered-first", "unregistered-on-failure"):
        r.floor(k, 2)


def show_fail(t):
    return t[1].rsplit(".", 1)[-1]


def truth(conds, t):
    """None-test of a term: True when known not to be None/empty."""
    for a, pol in conds.items():
        if a == ("is", t, NONE) or a == ("is", NONE, t) or a == ("eq", t, NONE) or a == ("eq", NONE, t):
            return not pol
        if a == t:
            return pol if pol else None
    return None


def one(ctx, fl, f, s, e, kind, base, what):
    r = ctx.r
    cls = fl.strip(e.target)
    before = s.trace[:s.trace.index(e)]
    r.check(is_class(cls) and bases(cls, fl) == [("ext", base)], "kind", what,
            "the class derives from %s" % ", ".join(show(b) for b in bases(cls, fl)) if is_class(cls) else show(cls),
            where(e))
    # packing
    packs = [x for x in before if x.kind == "setattr" and x.args[0] == "_pack_" and fl.strip(x.target) == cls]
    if packs:
        v = fl.strip(packs[-1].value)
        r.check(v[0] == "item" and v[2] == C("pack"), "layout-first", what + ": _pack_",
                "set to %s" % show(v), where(packs[-1]))
    else:
        none = [a for a in s.conds.items() if a[0][0] in ("is", "eq") and NONE in a[0][1:] and a[1] and any(
            x[0] == "item" and x[2] == C("pack") for x in a[0][1:])]
        r.check(bool(none), "layout-first", what + ": no _pack_",
                "the packing of the definition is not applied before the fields", where(e))
    rows = Rows(fl, s.trace)
    # fields
    v = fl.strip(e.value)
    vals = None
    if v[0] == "comp":
        if v[1] in ("list", "gen") and not (len(v) > 4 and v[4]):
            vals = [(v[2], s.conds, v[3])]
    elif v[0] == "call" and v[1][0] == "builtin" and v[1][1] in ("list", "tuple") and v[2] and v[2][0][0] == "comp":
        vals = [(v[2][0][2], s.conds, v[2][0][3])]
    elif v[0] == "obj":
        got = rows.lists(v)
        if got is not None:
            vals = [(x, y.conds, y.loops[-1][2] if y.loops else None) for x, y in got]
            for x, y in got:
                if y.how != "append":
                    vals = None
            vals_src = got
    if not vals:
        r.bad("fields", what, "the fields are not one per member, in order: %s" % show(v)[:80], where(e))
        return
    for val, conds, src in vals:
        if src is None or not in_order(rows, src):
            r.bad("fields", what + ": order", "the fields are taken from %s" % (show(src)[:80] if src else "?"), where(e))
            continue
        r.ok("fields", what + ": order")
        for row in rows.expand(val):
            field(ctx, rows, row, conds, what, e)
    # each iteration adds one
    if v[0] == "obj":
        for it in fl.iterends:
            if it.loops and any(x.loops and x.loops[-1][0] == it.loops[-1][0] for _, x in vals_src):
                n = sum(1 for x in it.trace if x.kind == "mutate" and x.how == "append" and
                        fl.strip(x.target) == v and x.loops and x.loops[-1][0] == it.loops[-1][0])
                r.check(n == 1, "fields", what + ": one per member", "%d fields added for one member" % n, where(e))
    # anonymous members
    anon = [x for x in before if x.kind == "setattr" and x.args[0] == "_anonymous_" and fl.strip(x.target) == cls]
    for ev in fl.events:
        if ev.loops and fresh_row(rows, ev):
            r.check(is_none(rows, known(ev, ev.loops[0])), "anonymous", what + ": generated names",
                    "a named member may get a generated name", where(ev))
    if not anon:
        r.bad("anonymous", what, "the unnamed members are not made anonymous", where(e))
        return
    t = fl.strip(anon[-1].value)
    while t[0] == "slice":
        if t[2] != NONE or t[3] != NONE:
            r.bad("anonymous", what + ": all of them", "only some of the unnamed members are made anonymous", where(anon[-1]))
        t = fl.strip(t[1])
    for val, ev in rows.lists(t) or ():
        if ev.loops:
            ok = is_none(rows, known(ev, ev.loops[0])) or not any(mentions(x, M) for x in rows.expand(val))
            r.check(ok, "anonymous", what + ": only unnamed members", "a named member is made anonymous", where(ev))
    unnamed(ctx, fl, rows, t, what, e)


def in_order(rows, src):
    is_m, b = rows.members(src)
    if is_m:
        return True
    b = rows.fl.strip(b)
    if b[0] == "comp":
        return b[1] in ("list", "gen") and not (len(b) > 4 and b[4]) and in_order(rows, b[3])
    got = rows.lists(b)
    if not got:
        return False
    for v, e in got:
        if e.how == "append" and not (e.loops and in_order(rows, e.loops[-1][2])):
            return False
    return True


def field(ctx, rows, row, conds, what, e):
    r = ctx.r
    if row[0] not in ("tuple", "list") or len(row[1]) < 2:
        r.bad("fields", what, "a field is %s" % show(row)[:80], where(e))
        return
    items = list(row[1])
    for n in over_m(rows, items[0]):
        ok = n == ("item", M, C(0)) or not mentions(n, M)
        r.check(ok, "fields", what + ": name", "named %s" % show(n)[:60], where(e))
    t = rows.fl.strip(items[1])
    ok = t[0] == "call" and t[1][0] == "func" and t[1][1].endswith("._get_type")
    if ok:
        a = [x for x in t[2] if x != ("param", "self")]
        ok = bool(a) and over_m(rows, a[0]) == [("item", M, C(1))] and len(a) == 1 and all(
            k != "pointers" or v == C(True) for k, v in t[3])
    r.check(ok, "fields", what + ": type", "of type %s" % show(t)[:80], where(e))
    rest = items[2:]
    if rest and rest[0][0] == "star" and len(rest) == 1:
        got = over_m(rows, rest[0][1])
        r.check(got == [("slice", M, C(3), NONE, NONE)], "fields", what + ": bit width",
                "followed by %s" % ", ".join(show(x) for x in got)[:80], where(e))
    elif len(rest) == 1:
        got = over_m(rows, rest[0])
        r.check(got == [("item", M, C(3))], "fields", what + ": bit width",
                "followed by %s" % ", ".join(show(x) for x in got)[:80], where(e))
    else:
        short = any(is_short(rows, a, pol) for a, pol in conds.items())
        r.check(short and not rest, "fields", what + ": bit width", "the bit width is not passed on", where(e))


def is_short(rows, a, pol):
    """The condition says that the member has no bit width (less than 4 items)."""
    def ln(t):
        return t[0] == "call" and t[1] == ("builtin", "len") and t[2] and any(
            x == M or x[0] == "tuple" for x in rows.expand(t[2][0]))
    if a[0] == "lt":
        x, y = a[1], a[2]
        if ln(x) and y == C(4):
            return pol
        if ln(x) and y == C(5) or x == C(4) and ln(y):
            return False
        if x == C(3) and ln(y):
            return not pol
    if a[0] == "eq":
        for x, y in ((a[1], a[2]), (a[2], a[1])):
            if ln(x) and y == C(4):
                return not pol
            if ln(x) and y == C(3):
                return pol
    if any(x == ("slice", M, C(3), NONE, NONE) or x == ("item", M, C(3)) for x in over_m(rows, a)):
        return not pol
    return False


def is_long(rows, a, pol):
    return is_short(rows, a, not pol)


def unnamed(ctx, fl, rows, anon, what, e):
    """Every unnamed member which is not a bit field is made anonymous."""
    r = ctx.r
    if rows.lists(anon) is None:
        return
    for it in fl.iterends:
        lp = it.loops[-1] if it.loops else None
        if not lp or lp[2] is None or not in_order(rows, lp[2]):
            continue
        if not any(x.kind == "mutate" and x.loops and lp[0] in [y[0] for y in x.loops] and fl.strip(x.target) == anon
                   for x in fl.events):
            continue
        conds = known(it, lp)
        bit = any(is_long(rows, a, pol) for a, pol in conds.items())
        n = sum(1 for x in it.trace if x.kind == "mutate" and x.how == "append" and fl.strip(x.target) == anon)
        none = is_none(rows, conds)
        if none:
            distinct(ctx, fl, rows, it, lp, what, e)
            kept(ctx, fl, rows, anon, it, lp, what, e)
        if none and not bit:
            r.check(n >= 1, "anonymous", what + ": every unnamed member",
                    "an unnamed member is not made anonymous", where(e))
        if none and bit:
            r.check(n == 0, "anonymous", what + ": padding bits",
                    "an unnamed bit field is made anonymous", where(e))


def kept(ctx, fl, rows, anon, it, lp, what, e):
    """The name made for an unnamed member gets to the fields, and among the names in use."""
    here = [x for x in it.trace if x.kind == "mutate" and lp[0] in [y[0] for y in x.loops]]
    made = {a[1]: fl.strip(a[2]) for x in here + [it] for a, pol in x.conds.items()
            if a[0] == "in" and not pol and a[1][0] in ("fmt", "bin") and fl.strip(a[2])[0] == "obj"}
    v = fl.strip(e.value)
    sources = [v] + [y for y, _ in rows.lists(v) or ()]
    for n, used in made.items():
        got = [fl.strip(x.target) for x in here if fl.strip(x.target) != anon and any(mentions(a, n) for a in x.args)]
        ctx.r.check(any(mentions(s, g) for g in got for s in sources), "anonymous", what + ": names of the unnamed members kept",
                    "the name made for an unnamed member is not the one of its field", where(e))
        for x in here:
            if fl.strip(x.target) == used and x.how in ("append", "add") and x.args[0] != n and (
                    x.args[0][0] == "item" and x.args[0][2] != C(0) and is_const(x.args[0][2]) or not mentions(x.args[0], n)):
                ctx.r.bad("anonymous", what + ": names of the unnamed members",
                          "%s is kept instead of the name made" % show(x.args[0])[:60], where(x))


def distinct(ctx, fl, rows, it, lp, what, e):
    """The name given to an unnamed member is the one of no earlier member."""
    r = ctx.r
    grows = {fl.strip(x.target) for x in it.trace if x.kind == "mutate" and x.how in (
        "append", "add", "setitem", "update", "extend", "augassign")}
    for x in it.trace:
        if x.kind != "mutate" or x.how != "append" or not x.loops or lp[0] not in [y[0] for y in x.loops]:
            continue
        n = x.args[0]
        if n[0] not in ("fmt", "bin", "call") or any(y[0] in ("item", "comp", "elem") for y in subterms(n)):
            continue
        free = [fl.strip(a[2]) for a, pol in x.conds.items() if a[0] == "in" and not pol and a[1] == n]
        r.check(free or any(y[0] == "idx" for y in subterms(n)) or counted(n, x), "anonymous",
                what + ": names of the unnamed members", "%s may be the name of another member" % show(n)[:60], where(x))
    for a, pol in it.conds.items():
        if a[0] == "in" and not pol and a[1][0] in ("fmt", "bin", "call") and fl.strip(a[2])[0] == "obj":
            r.check(fl.strip(a[2]) in grows, "anonymous", what + ": names of the unnamed members",
                    "the next member may be named %s as well" % show(a[1])[:60], where(e))


def counted(n, x):
    """The name is made of the number of names so far."""
    return any(y[0] == "call" and y[1] == ("builtin", "len") or y[0] == "call" and y[1] == ("builtin", "next")
               for y in subterms(n))
