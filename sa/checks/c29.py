"""Enumerators have the values C gives them, and are all recorded."""

import ast

from ..common import where
from ..flow import C, NONE, is_const, mentions, show, subterms
from ..rows import Rows

TITLE = "enumerators are numbered as in C and all recorded"
RULES = (
    "every path of one turn of the loop over the enumerators: each is stored in the "
    "enumeration and among the values, under its name, with one and the same value; the "
    "value given if there is one, else the one following the previous enumerator (the "
    "values carried from a turn to the next are decomposed in a start and increments: the "
    "first is 0, each next one more than the previous one, whether it was given or not); "
    "after an unknown value nothing is added to it; the values are recorded before the "
    "next enumerator is evaluated; the enumeration is recorded once filled."
)
ASSUMPTIONS = ("the value of an expression is what eval_expr gives (None when unknown)",)
SELF = ("param", "self")
EVALS = ("eval_expr", "eval")


def callee(t):
    return str(t[1][-1]).split(".")[-1] if t[0] == "call" else None


def defined(e):
    """(kind, name, value) of a call of add_def."""
    if e.kind != "call" or callee(("call", e.target)) != "add_def":
        return None
    a = []
    for x in e.args[1:]:
        if x[0] == "star" and len(a) == 1:
            a += [("item", x[1], C(0)), ("item", x[1], C(1))]
        else:
            a.append(x)
    kw = dict(e.kwargs) if e.kwargs else {}
    for n in ("typ", "name", "val")[len(a):]:
        if n not in kw:
            return None
        a.append(kw[n])
    return tuple(a[:3])


def field(t, e):
    """Name of the field of the enumerator a term is."""
    if t[0] == "attr" and t[1] == e:
        return t[2]
    if t[0] == "item" and t[1] == e and is_const(t[2]):
        return {0: "name", 1: "value"}.get(t[2][2], t[2][2])
    if t[0] == "call" and t[1][0] == "method" and t[1][1] == e and t[1][2] == "get" and t[2] and is_const(t[2][0]):
        return t[2][0][2]
    return None


def linear(t):
    """(base, constant) of a sum."""
    k = 0
    while t[0] == "bin" and t[1] in ("Add", "Sub"):
        a, b = t[2], t[3]
        if is_const(b) and isinstance(b[2], int):
            k += b[2] if t[1] == "Add" else -b[2]
            t = a
        elif t[1] == "Add" and is_const(a) and isinstance(a[2], int):
            k += a[2]
            t = b
        else:
            break
    if is_const(t) and isinstance(t[2], int) and not isinstance(t[2], bool):
        return None, k + t[2]
    return t, k


def run(ctx):
    r = ctx.r
    f = ctx.method(ctx.CParser, "process_enum")
    fl = ctx.flow(f, key="c29", implicit=False, opaque=lambda x: x.name in ("add_def",) + EVALS)
    loops = {}
    for it in fl.iterends:
        if not it.loops or it.loops[-1][2] is None:
            continue
        site = it.loops[-1][0]
        st = stored(fl, it)
        if st is not None:
            loops.setdefault(site, []).append((it, st))
    filling = {s: xs for s, xs in loops.items() if any(x[1].enum for x in xs) or any(x[1].values for x in xs)}
    both = [s for s, xs in filling.items() if any(x[1].enum for x in xs) and any(x[1].values for x in xs)]
    if not filling:
        if any(mentions(v, ("attr", ("param", "t"), "members")) for s, o in fl.outcomes for e in s.trace for v in e.args
               if isinstance(v, tuple)):
            r.skip("value", f.qual, "the enumerators are not recorded by a loop")
            r.skip("recorded", f.qual, "the enumerators are not recorded by a loop")
            return
        r.bad("recorded", f.qual, "the enumerators are not recorded", f.qual)
        return
    rows = Rows(fl)
    for s, xs in filling.items():
        it = xs[0][0]
        src, ordered, why, _ = rows.own(it.loops[-1][2])
        if any(x[0] == "attr" and x[2] == "members" for x in subterms(src)):
            r.check(ordered, "order", "%s: the enumerators" % f.qual, "taken in another order or not all (%s)" % why, where(it))
        for x in fl.iterexits:
            if x.loops and x.loops[-1][0] == s and x.args[1] == ("break",):
                r.bad("order", "%s: the enumerators" % f.qual, "the remaining ones are left out", where(x))
    for s in both:
        numbering(ctx, fl, f, s, filling[s])
    if not both:
        late(ctx, fl, f, filling)
    whole(ctx, fl, f, filling)
    for k in ("value", "next", "recorded"):
        r.floor(k, 1)


class Stored:
    def __init__(self):
        self.enum = []  # (event, value)
        self.values = []
        self.elem = None
        self.wrong = []


def stored(fl, it):
    """What an iteration stores under the name of the element of its loop."""
    site, node, term = it.loops[-1]
    src = fl.strip(term)
    while src[0] == "call" and src[1] in (("builtin", "enumerate"), ("builtin", "list"), ("builtin", "iter"),
                                          ("builtin", "tuple")) and src[2]:
        src = fl.strip(src[2][0])
    st = Stored()
    mine = it.trace[len(it.args[0]):]

    def enumerator(t):
        return t[0] == "elem" and isinstance(t[2], tuple) and t[2][:2] == site[:2] or (
            t[0] == "item" and t[1][0] == "elem" and t[1][2][:2] == site[:2] and is_const(t[2]) and t[2][2] == 1
            and fl.strip(term)[0] == "call")

    for e in mine:
        key = val = None
        if e.kind == "mutate" and e.how == "setitem" and len(e.args) == 2:
            key, val, to = e.args[0], e.args[1], "enum"
            if any(is_const(x) and x[2] in ("values", "enums", "types") for x in subterms(e.target)):
                to = "values"
        elif defined(e) and defined(e)[0] == C("values"):
            key, val, to = defined(e)[1], defined(e)[2], "values"
        elif e.kind == "mutate" and e.how == "append" and e.args and e.args[0][0] == "tuple" and len(e.args[0][1]) == 2:
            key, val, to = e.args[0][1][0], e.args[0][1][1], "enum"
        else:
            continue
        for x in subterms(key):
            if enumerator(x):
                st.elem = x
        if st.elem is None or not mentions(key, st.elem):
            continue
        getattr(st, to).append((e, key, val))
    if st.elem is None:
        for v in list(it.conds) + [x for x in it.value.values() if isinstance(x, tuple) and x]:
            for x in subterms(v):
                if x[0] == "elem" and isinstance(x[2], tuple) and x[2][:2] == site[:2] and st.elem is None:
                    st.elem = x
    if not any(x[0] == "attr" and x[2] == "members" or is_const(x) and x[2] == "members" for x in subterms(term)):
        if not (st.enum or st.values):
            return None
    return st


def given(conds, e):
    """True / False: the enumerator has a value / has none; None: not told."""
    for a, w in conds.items():
        for x in subterms(a):
            if field(x, e) == "value":
                if a == x:
                    return w
                if a[0] in ("eq", "is") and any(is_const(y) and y[2] in ("", None) for y in a[1:3]):
                    return not w
                if a[0] == "call" and a[1] == ("builtin", "len"):
                    return w
                return "other"
        if a[0] == "in" and a[1] == C("value") and mentions(a, e):
            return w
    return None


def guard(conds, y, fl):
    """How the paths tells that a value is known: True, 'truth', None (nothing) or 'other'."""
    got = None
    for a, w in conds.items():
        if not mentions(a, y):
            continue
        if a == y:
            got = got or ("truth" if w else "false")
        elif a[0] == "call" and a[1] == ("builtin", "isinstance") and a[2][0] == y:
            return "known" if w else "unknown"
        elif a[0] in ("is", "eq") and NONE in a[1:3]:
            return "unknown" if w else "known"
        elif a[0] == "in" or a[0] == "eq" and any(field_of_value(x) for x in subterms(a)):
            continue
        else:
            got = got or "other"
    return got


def field_of_value(t):
    return t[0] == "attr" and t[2] == "value"


def in_try(func, node):
    """The construct is in the body of a try inside a loop."""
    for n in ast.walk(func.node):
        if isinstance(n, (ast.For, ast.While)):
            for t in ast.walk(n):
                if isinstance(t, ast.Try) and any(
                        isinstance(x, (ast.BinOp, ast.AugAssign)) for b in t.body for x in ast.walk(b)):
                    return True
    return False


def numbering(ctx, fl, f, site, xs):
    r = ctx.r
    ks = set()  # offset of the value of an enumerator without value
    var = set()
    steps = []
    for it, st in xs:
        e = st.elem
        here = where(it)
        what = "%s: an enumerator" % it.func.qual
        if not st.enum or not st.values:
            miss = "the enumeration" if not st.enum else "the values"
            if given(it.conds, e) is not None or not it.conds:
                pass
            r.bad("recorded", what, "left out of %s%s" % (miss, told(it, e)), here)
            continue
        (ev, key, val), (ev2, key2, val2) = st.enum[-1], st.values[-1]
        for k in (key, key2):
            n = field(k, e)
            if n is None:
                r.skip("recorded", what, "under %s" % show(k)[:50])
            else:
                r.check(n == "name", "recorded", what, "under its %s" % n, here)
        r.check(val == val2, "recorded", what + ": one value",
                "%s in the enumeration and %s in the values" % (show(val)[:40], show(val2)[:40]), here)
        has = given(it.conds, e)
        base, k = linear(val)
        if has == "other":
            r.skip("value", what, "the value given is tested in an unknown way")
        elif has is True:
            own = base is not None and callee(base) in EVALS and any(field(x, e) == "value" for y in base[2] for x in subterms(y))
            if own:
                r.check(k == 0, "value", what + " with a value", "its value is changed by %d" % k, here)
            elif base is not None and base[0] == "call" and any(field(x, e) == "value" for x in subterms(base)):
                r.skip("value", what + " with a value", "it is %s" % show(val)[:60])
            elif is_const(val) and val == NONE and any(callee(a) in EVALS for c in it.conds for a in subterms(c)):
                r.ok("value", what + " with a value")
            elif base is not None and base[0] in ("unk", "ifexp", "or", "and"):
                r.skip("value", what + " with a value", "it is %s" % show(val)[:60])
            else:
                r.bad("value", what + " with a value", "it is %s" % show(val)[:60], here)
        elif has is False:
            if base is not None and base[0] == "phi" and base[1] == site:
                ks.add(k)
                var.add(base)
                if k:
                    protected(ctx, fl, f, it, base, what + " without value", here)
                r.ok("value", what + " without value")
            elif val == NONE and any(mentions(a, p) for a in it.conds for p in var_of(fl, site)):
                r.ok("value", what + " without value")
            elif base is not None and base[0] == "idx":
                r.bad("value", what + " without value", "its rank, whatever the values given before", here)
            elif base is None:
                r.bad("value", what + " without value", "always %s" % show(val)[:40], here)
            elif base[0] in ("unk", "idx", "elem", "item", "call", "or", "and", "ifexp") and not (
                    callee(base) in EVALS) and not (base[0] == "call" and callee(base) == "len"):
                r.skip("value", what + " without value", "it is %s" % show(val)[:60])
            else:
                r.bad("value", what + " without value", "it is %s" % show(val)[:60], here)
        else:
            own = base is not None and callee(base) in EVALS
            if base is not None and base[0] == "phi" and base[1] == site:
                r.bad("value", what, "the value given is not looked at", here)
            elif own:
                r.bad("value", what, "evaluated though none is given", here)
            else:
                r.skip("value", what, "it is %s" % show(val)[:60])
        steps.append((it, val, base, k, here))
    if not var:
        if not r.skipped("value"):
            r.skip("next", f.qual, "the values are not carried from an enumerator to the next")
        else:
            r.skip("next", f.qual, "unknown numbering")
        return
    if len(var) > 1 or len(ks) > 1:
        r.skip("next", f.qual, "several counters")
        return
    (p,), (k,) = var, ks
    init = fl.phi_init.get((p[1], p[2]))
    base, i0 = linear(init) if init is not None else (("unk",), 0)
    what = "%s: the first enumerator" % f.qual
    if base is not None:
        r.skip("next", what, "starts at %s" % (show(init)[:40] if init else "?"))
    else:
        r.check(i0 + k == 0, "next", what, "its value is %d" % (i0 + k), f.qual)
    for it, val, b, kk, here in steps:
        new = it.value.get(p[2])
        what = "%s: the enumerator following one" % it.func.qual
        if not isinstance(new, tuple):
            continue
        if val == NONE:
            r.check(new == NONE, "next", what + " of unknown value", "it is %s" % show(new)[:40], here)
            continue
        if new == NONE:
            g = guard(it.conds, b, fl) if b is not None else None
            if g == "known":
                r.bad("next", what + " of known value", "it is unknown", here)
            elif g == "false":
                r.bad("next", what + " of value 0", "it is unknown", here)
            elif g is None and not in_try(f, None):
                r.bad("next", what + " of any value", "it is unknown", here)
            else:
                r.ok("next", what + " of unknown value")
            continue
        nb, nk = linear(new)
        if nb != b:
            if nb is None:
                r.bad("next", what, "it is %d whatever the previous one" % (nk + k), here)
            elif nb == p or nb[0] == "phi" and nb[1] == site:
                r.bad("next", what + " with a value", "the value given is not counted from", here)
            else:
                r.skip("next", what, "it is %s" % show(new)[:60])
            continue
        m = nk - kk
        if new == val and guard(it.conds, b, fl) == "unknown":
            r.ok("next", what + " of unknown value")
            continue
        r.check(m + k == 1, "next", what, "it is %+d" % (m + k), here)
        if m or nk:
            protected(ctx, fl, f, it, b, what, here)


def var_of(fl, site):
    return [("phi", site, n) for (s, n) in fl.phi if s == site]


def protected(ctx, fl, f, it, y, what, here):
    """Nothing is added to an unknown value."""
    g = guard(it.conds, y, fl)
    r = ctx.r
    if g == "known":
        r.ok("unknown", what)
    elif g == "truth":
        # the path for a false one has to be the one of an unknown value
        r.bad("unknown", what, "a value of 0 is taken for an unknown one", here)
    elif g == "unknown":
        r.bad("unknown", what, "one is added to an unknown value", here)
    elif g in (None, "false") and in_try(f, None):
        r.ok("unknown", what)
    elif g is None:
        r.bad("unknown", what, "one is added to a value which can be unknown: the enumeration is lost", here)
    else:
        r.skip("unknown", what, "the value being known is decided in an unknown way")


def told(it, e):
    g = given(it.conds, e)
    return "" if g is None else " when it has %s value" % ("a" if g is True else "no")


def late(ctx, fl, f, filling):
    """Enumeration and values are filled by separate loops."""
    r = ctx.r
    vals = [s for s, xs in filling.items() if any(x[1].values for x in xs)]
    if not vals:
        r.bad("recorded", f.qual, "the enumerators are not among the values", f.qual)
    else:
        r.bad("visible", f.qual, "the enumerators are recorded once all were evaluated: "
              "the ones evaluated next do not see them", f.qual)


def whole(ctx, fl, f, filling):
    """The enumeration filled is the one recorded."""
    r = ctx.r
    targets = set()
    for xs in filling.values():
        for it, st in xs:
            for e, k, v in st.enum:
                targets.add(fl.strip(e.target))
    what = "%s: the enumeration" % f.qual
    n = 0
    for s, o in fl.outcomes:
        if o[0] != "return":
            continue
        fills = any(e.kind == "loop" and e.loops and e.loops[-1][0] in filling for e in s.trace) or any(
            e.kind == "mutate" and e.how == "setitem" and fl.strip(e.target) in targets for e in s.trace)
        recs = [e for e in s.trace if defined(e) and defined(e)[0] == C("enums")]
        recs += [e for e in s.trace if e.kind == "mutate" and e.how == "setitem" and any(
            is_const(x) and x[2] == "enums" for x in subterms(e.target))]
        for e in recs:
            n += 1
            d = defined(e)[2] if e.kind == "call" else e.args[1]
            d = fl.strip(d)
            if d in targets:
                r.ok("recorded", what)
            elif any(mentions(d, t) for t in targets) or d[0] in ("call", "unk", "phi"):
                ok = d[0] == "call" and (d[1] == ("builtin", "dict") or str(d[1][-1]).endswith("Enum") or d[1][0] == "method" and d[1][2] == "copy")
                (r.ok if ok else r.skip)("recorded", what, *([] if ok else ["it is %s" % show(d)[:50]]))
            else:
                r.bad("recorded", what, "%s is recorded instead of the one filled" % show(d)[:40], where(e))
        if fills and not recs:
            r.bad("recorded", what, "not recorded", f.qual)
    if not n:
        r.bad("recorded", what, "never recorded", f.qual)
