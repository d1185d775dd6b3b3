"""Every declaration of a header is recorded, in full and under its own name."""

from ..common import where
from ..flow import C, NONE, is_const, mentions, show, subterms
from ..rows import Rows
from .c29 import callee, defined, linear

TITLE = "every declaration is recorded in full under its own name"
RULES = (
    "path by path in the parse actions: the declarators of a declaration are all taken, in "
    "order, each is processed with the type of its declaration, and gives under its name "
    "the type it was processed to: a type for a typedef; a function when its last modifier "
    "is a parameter list, else a variable with its value (that of the initialiser for the "
    "last declarator, decided for 1 and 2 declarators, none for the others); the members of "
    "a structure are taken in order, one for each declarator, with their bit width if there "
    "is one, members without declarator included, and make up the structure recorded; "
    "the name returned for a tag is the one recorded, an unused one for an anonymous tag; a "
    "reference to a tag never replaces a definition and a definition replaces references."
)
ASSUMPTIONS = ("process_type gives the name and the type of a declarator",)
T = ("param", "t")
OPAQUE = ("add_def", "eval_expr", "process_type", "packing_at", "eval")


def flow(ctx, f):
    return ctx.flow(f, key="c30", implicit=False, opaque=lambda x: x.name in OPAQUE)


def processed(t, i=None):
    """Call of process_type a term is a part of."""
    if t[0] == "item" and is_const(t[2]) and t[1][0] == "call" and callee(t[1]) == "process_type":
        if i is None or t[2][2] == i:
            return t[1]
    return None


def arguments(t):
    """(type, declarator) given to process_type."""
    a = [x for x in t[2] if x != ("param", "self")]
    kw = dict(t[3]) if len(t) > 3 and t[3] else {}
    for n in ("typ", "decl")[len(a):]:
        if n in kw:
            a.append(kw[n])
    return (a + [NONE, NONE])[:2]


def ends(t, *names):
    """The term is reached from the tokens by the fields given, last one first."""
    for n in names:
        if t[0] == "attr" and t[2] == n:
            t = t[1]
        elif t[0] == "item" and t[2] in (C(n), C(0)) and (t[2] == C(n)):
            t = t[1]
        else:
            return False
    return True


def field(t):
    if t[0] == "attr":
        return t[2]
    if t[0] == "item" and is_const(t[2]):
        return t[2][2]
    return None


def named(term, name):
    return any(field(x) == name for x in subterms(term))


def strings(t):
    """The pieces of a text, as one list."""
    if t[0] == "fmt":
        out, left = [], list(t[1])
        while left:
            out += filled(left)
        return joined(out)
    if t[0] == "bin" and t[1] == "Add":
        return strings(t[2]) + strings(t[3])
    if is_const(t) and t[2] == "":
        return []
    return [t]


def joined(out):
    res = []
    for x in out:
        if res and is_const(x) and is_const(res[-1]) and isinstance(x[2], str) and isinstance(res[-1][2], str):
            res[-1] = C(res[-1][2] + x[2])
        elif x != C(""):
            res.append(x)
    return res


def filled(left):
    """The pieces of the first one, with the following ones it is a template for."""
    x = left.pop(0)
    if is_const(x) and isinstance(x[2], str) and "{}" in x[2]:
        parts = x[2].split("{}")
        out = [C(parts[0])]
        for p in parts[1:]:
            if not left:
                break
            out += filled(left) + [C(p)]
        return out
    return strings(x)


def run(ctx):
    r = ctx.r
    typedefs(ctx)
    variables(ctx)
    function(ctx)
    members(ctx)
    tags(ctx, "process_struct")
    tags(ctx, "process_enum")
    for k in ("typedef", "variable", "function", "members", "tag"):
        r.floor(k, 1)


def loops(ctx, fl, f, rule, name):
    """Iterations over the declarators: [(iteration, element, own trace)]."""
    r = ctx.r
    rows = Rows(fl)
    out = []
    sites = set()
    for it in fl.iterends:
        if not it.loops or it.loops[-1][2] is None:
            continue
        site, node, term = it.loops[-1]
        src, ordered, why, _ = rows.own(term)
        if field(src) != name:
            continue
        sites.add(site)
        r.check(ordered, "order", "%s: %s" % (f.qual, name), "taken in another order or not all (%s)" % why, where(it))
        out.append((it, site, it.trace[len(it.args[0]):], src))
    for x in fl.iterexits:
        if x.loops and x.loops[-1][2] is not None and x.args[1] == ("break",) and (
                x.loops[-1][0] in sites or field(rows.own(x.loops[-1][2])[0]) == name):
            r.bad("order", "%s: %s" % (f.qual, name), "the remaining ones are left out", where(x))
    return out


def is_elem(t, site, src):
    return t[0] == "elem" and t[2][:2] == site[:2] or (
        t[0] == "item" and t[1][0] == "elem" and t[1][2][:2] == site[:2]) or (
        t[0] == "item" and t[1] == src and t[2][0] == "idx")


def declarator(ctx, rule, what, key, site, src, here):
    """The name is that of the declarator of this turn, processed with its type."""
    r = ctx.r
    p = processed(key, 0)
    if p is None:
        if key[0] in ("unk", "phi", "call"):
            r.skip(rule, what, "under %s" % show(key)[:50])
        else:
            r.bad(rule, what, "recorded under %s" % show(key)[:50], here)
        return None
    typ, d = arguments(p)
    if not is_elem(d, site, src):
        r.bad(rule, what, "the declarator processed is %s" % show(d)[:50], here)
    if field(typ) not in ("type", "name") and not named(typ, "type"):
        (r.skip if typ[0] in ("unk", "phi", "call") else lambda a, b, c: r.bad(a, b, c, here))(
            rule, what, "processed with %s as its type" % show(typ)[:50])
    return p


def unnamed(conds):
    """The path is one of a declarator without name."""
    for a, w in conds.items():
        if a[0] in ("is", "eq") and NONE in a[1:3] and w and any(processed(x, 0) for x in a[1:3]):
            return True
        if processed(a, 0) and not w:
            return True
    return False


def typedefs(ctx):
    r = ctx.r
    f = ctx.method(ctx.CParser, "process_typedef")
    fl = flow(ctx, f)
    n = 0
    for it, site, mine, src in loops(ctx, fl, f, "typedef", "decl_list"):
        n += 1
        ds = [(e, defined(e)) for e in mine if defined(e)]
        ds = [(e, d) for e, d in ds if d[0] == C("types")]
        what = "%s: a declarator" % it.func.qual
        if not ds:
            if unnamed(it.conds):
                continue
            r.bad("typedef", what, "left out%s" % because(it.conds), where(it))
            continue
        for e, (kind, key, val) in ds:
            p = declarator(ctx, "typedef", what, key, site, src, where(e))
            if p is not None:
                value(ctx, "typedef", what, val, p, where(e))
    if not n:
        absent(ctx, fl, f, "typedef")


def value(ctx, rule, what, val, p, here, hack=False):
    r = ctx.r
    q = processed(val, 1)
    if q is not None:
        r.check(q == p, rule, what, "the type of another declarator is recorded", here)
    elif val[0] == "call" and val[1][0] in ("method", "func") and hack and any(processed(x, 1) == p for x in subterms(val)):
        r.ok(rule, what)
    elif val[0] == "new" and str(val[1]).endswith("Type") and not any(x[0] == "star" for x in val[2]):
        r.bad(rule, what, "only a part of its type is recorded: %s" % show(val)[:50], here)
    elif any(processed(x, 1) for x in subterms(val)) or val[0] in ("unk", "phi", "call", "new", "obj"):
        if any(x[0] == "slice" for x in subterms(val)):
            r.bad(rule, what, "only a part of its type is recorded: %s" % show(val)[:50], here)
        else:
            r.skip(rule, what, "recorded as %s" % show(val)[:50])
    else:
        r.bad(rule, what, "recorded as %s" % show(val)[:50], here)


def because(conds):
    c = ["%s%s" % ("" if w else "not ", show(a)[:60]) for a, w in conds.items()]
    return " when " + " and ".join(c[-2:]) if c else ""


def absent(ctx, fl, f, rule):
    r = ctx.r
    used = any(defined(e) for s, o in fl.outcomes for e in s.trace) or any(
        e.kind == "call" and callee(("call", e.target)) in OPAQUE for e in fl.events)
    if used:
        r.skip(rule, f.qual, "the declarators are not taken by a loop")
    else:
        r.bad(rule, f.qual, "nothing is recorded", f.qual)


def parameters(a, w):
    """Truth of: the last modifier is a list of parameters."""
    if not any(processed(x, 1) for x in subterms(a)):
        return None
    if a[0] in ("is", "eq") and len(a) == 3:
        for x, y in ((a[1], a[2]), (a[2], a[1])):
            if y == ("builtin", "tuple") and last_modifier(x):
                return w
    if a[0] == "call" and a[1] == ("builtin", "isinstance") and a[2][1] == ("builtin", "tuple"):
        return w if last_modifier(a[2][0]) else first_modifier(a[2][0]) or "other"
    if any(y == ("builtin", "tuple") for y in subterms(a)):
        return first_modifier(a) or "other"
    return None


def last_modifier(x):
    for y in subterms(x):
        if y[0] == "item" and processed(y[1], 1) and y[2] == C(-1):
            return True
        if y[0] == "item" and y[1][0] == "attr" and processed(y[1][1], 1) and y[2] == C(-1):
            return True
    return False


def first_modifier(x):
    """A modifier other than the last one is looked at."""
    for y in subterms(x):
        if y[0] == "item" and is_const(y[2]) and y[2] != C(-1) and (
                processed(y[1], 1) or y[1][0] == "attr" and processed(y[1][1], 1)):
            return "first"
    return None


def variables(ctx):
    r = ctx.r
    f = ctx.method(ctx.CParser, "process_variable")
    fl = flow(ctx, f)
    n = 0
    for it, site, mine, src in loops(ctx, fl, f, "variable", "decl_list"):
        n += 1
        here = where(it)
        ds = {}
        for e in mine:
            d = defined(e)
            if d and is_const(d[0]):
                ds.setdefault(d[0][2], []).append((e, d))
        fn = [parameters(a, w) for a, w in it.conds.items()]
        fn = [x for x in fn if x is not None]
        what = "%s: a declarator" % it.func.qual
        if not ds:
            if not unnamed(it.conds):
                r.bad("variable", what, "left out%s" % because(it.conds), here)
            continue
        if "first" in fn:
            r.bad("variable", what, "a function is told by a modifier which is not the last one", here)
        elif "other" in fn:
            r.skip("variable", what, "a function is told in an unknown way")
        elif not fn:
            if "functions" in ds or "variables" in ds:
                r.bad("variable", what, "functions are not told from variables", here)
            continue
        elif fn[0]:
            r.check("functions" in ds, "function", what + " with parameters", "not recorded as a function", here)
            r.check("variables" not in ds, "function", what + " with parameters", "recorded as a variable", here)
        else:
            r.check("functions" not in ds, "variable", what + " without parameters", "recorded as a function", here)
            r.check("variables" in ds, "variable", what + " without parameters", "not recorded as a variable", here)
            r.check("values" in ds, "variable", what + " without parameters", "its value is not recorded", here)
        for kind, xs in ds.items():
            for e, (k, key, val) in xs:
                rule = "function" if kind == "functions" else "variable"
                p = declarator(ctx, rule, what + " (%s)" % kind, key, site, src, where(e))
                if p is None:
                    continue
                if kind == "functions":
                    value(ctx, rule, what + " (%s)" % kind, val, p, where(e), True)
                elif kind == "variables":
                    if val[0] == "tuple" and len(val[1]) == 2:
                        value(ctx, rule, what + " (%s)" % kind, val[1][1], p, where(e))
                        initial(ctx, fl, it, what + ": value", val[1][0], src, where(e))
                    else:
                        r.skip(rule, what, "recorded as %s" % show(val)[:50])
                elif kind == "values":
                    initial(ctx, fl, it, what + ": value among the values", val, src, where(e))
    if not n:
        absent(ctx, fl, f, "variable")


def initial(ctx, fl, it, what, val, src, here):
    """The initialiser is the value of the last declarator only."""
    r = ctx.r
    given = val[0] == "call" and callee(val) in ("eval_expr", "eval")
    if not given and val != NONE:
        (r.skip if val[0] in ("unk", "phi", "call", "item") else lambda a, b, c: r.bad(a, b, c, here))(
            "initial", what, "it is %s" % show(val)[:50])
        return
    for n in (1, 2):
        for i in range(n):
            if feasible(it.conds, src, it.loops[-1][0], i, n):
                if i == n - 1:
                    r.check(given, "initial", what + " of the last declarator", "the initialiser is ignored", here)
                else:
                    r.check(not given, "initial", what + " of the others", "the initialiser of the last one is taken", here)


def feasible(conds, src, site, i, n):
    """Whether a turn for the declarator i out of n can take this path."""
    def val(t):
        if is_const(t):
            return t[2]
        if is_elem(t, site, src):
            return ("d", i)
        if t[0] == "idx":
            return i
        if t == src:
            return ("list",)
        if t[0] == "call" and t[1] == ("builtin", "len") and t[2][0] == src:
            return n
        if t[0] == "item":
            b, k = val(t[1]), val(t[2])
            if b == ("list",) and isinstance(k, int):
                return ("d", k % n)
        if t[0] == "slice" and t[1] == src:
            lo, hi = (val(x) if isinstance(x, tuple) and x else None for x in (t[2], t[3]))
            return ("part",) + tuple(range(n))[slice(lo, hi)]
        if t[0] == "bin" and t[1] in ("Add", "Sub"):
            a, b = val(t[2]), val(t[3])
            if isinstance(a, int) and isinstance(b, int):
                return a + b if t[1] == "Add" else a - b
        return Unknown

    class Unknown:
        pass

    def truth(a):
        if a[0] in ("eq", "is", "lt", "le", "gt", "ge") and len(a) == 3:
            x, y = val(a[1]), val(a[2])
            if x is Unknown or y is Unknown:
                return None
            if a[0] in ("eq", "is"):
                return x == y
            if not isinstance(x, int) or not isinstance(y, int):
                return None
            return {"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[a[0]]
        v = val(a)
        if v is Unknown:
            return None
        if isinstance(v, tuple) and v[0] == "part":
            return len(v) > 1
        return bool(v)

    return all(truth(a) in (None, w) for a, w in conds.items())


def raised(s):
    return any(e.kind == "raise" for e in s.trace)


def function(ctx):
    r = ctx.r
    f = ctx.method(ctx.CParser, "process_function")
    fl = flow(ctx, f)
    n = 0
    for s, o in fl.outcomes:
        ds = [(e, defined(e)) for e in s.trace if defined(e)]
        ds = [(e, d) for e, d in ds if d[0] == C("functions")]
        what = "%s: the function" % f.qual
        if not ds:
            if o[0] == "raise" or raised(s):
                # refused: what is no function
                if not any(mentions(a, x) for a in s.conds for x in subterms(a) if processed(x)):
                    r.bad("function", what, "always refused", f.qual)
                continue
            if any(processed(x, 1) for a in s.conds for x in subterms(a)) and any(
                    parameters(a, w) is False or not w for a, w in s.conds.items()):
                continue
            r.bad("function", what, "not recorded%s" % because(s.conds), f.qual)
            continue
        n += 1
        for e, (k, key, val) in ds:
            p = processed(key, 0)
            if p is None:
                (r.skip if key[0] in ("unk", "phi", "call") else lambda a, b, c: r.bad(a, b, c, where(e)))(
                    "function", what, "recorded under %s" % show(key)[:50])
                continue
            typ, d = arguments(p)
            r.check(named(typ, "type"), "function", what, "its type is made from %s" % show(typ)[:50], where(e))
            r.check(named(d, "decl"), "function", what, "its declarator is %s" % show(d)[:50], where(e))
            value(ctx, "function", what, val, p, where(e), True)
    if not n:
        absent(ctx, fl, f, "function")


def contents(fl, t, state):
    """The items of a tuple or of a list, or None."""
    t = fl.strip(t)
    if t[0] == "call" and t[1] in (("builtin", "tuple"), ("builtin", "list")) and len(t[2]) == 1:
        return contents(fl, t[2][0], state)
    if t[0] in ("tuple",):
        out = []
        for x in t[1]:
            if x[0] == "star":
                more = contents(fl, x[1], state)
                if more is None:
                    return None
                out += more
            else:
                out.append(x)
        return out
    if t[0] == "bin" and t[1] == "Add":
        a, b = contents(fl, t[2], state), contents(fl, t[3], state)
        return None if a is None or b is None else a + b
    if t[0] == "obj" and state is not None:
        it = state.get((t, "#items"))
        if it is not None and not state.get((t, "#open")):
            out = []
            for x in it:
                if x[0] == "star":
                    more = contents(fl, x[1], state)
                    if more is None:
                        return None
                    out += more
                else:
                    out.append(x)
            return out
    return None


def bit_told(conds):
    """Whether the member has a bit width, as far as the path tells."""
    told = []
    for a, w in conds.items():
        if a[0] == "in" and a[1] == C("bit"):
            told.append(w)
            continue
        for x in subterms(a):
            if field(x) == "bit":
                if a == x:
                    told.append(w)
                elif a[0] in ("eq", "is") and any(is_const(y) and y[2] in ("", None) for y in a[1:3]):
                    told.append(not w)
                else:
                    told.append("other")
                break
    if True in told and False in told:
        return "no such path"
    for x in (True, False, "other"):
        if x in told:
            return x
    return None


def members(ctx):
    r = ctx.r
    f = ctx.method(ctx.CParser, "process_struct")
    fl = flow(ctx, f)
    rows = Rows(fl)
    lists = set()
    n = 0
    bulk = any(e.kind == "mutate" and e.how in ("extend", "augassign") and any(
        x[0] == "comp" and named(x, "decl_list") for a in e.args if isinstance(a, tuple) for x in subterms(a)
    ) for e in fl.events) or any(
        # bound again to a longer list, not followed
        v[0] == "bin" and v[1] == "Add" and v[2][0] in ("phi", "bin") and (v[3][0] == "tuple" or v[3][0] == "obj")
        for it in fl.iterends for v in it.value.values() if isinstance(v, tuple) and len(v) > 3)
    inner = loops(ctx, fl, f, "members", "decl_list")
    for it, site, mine, src in inner:
        n += 1
        what = "%s: a member" % it.func.qual
        puts = [e for e in mine if e.kind == "mutate" and e.how == "append" and contents(fl, e.args[0], e.state)
                is not None and any(processed(y, 0) for y in contents(fl, e.args[0], e.state)[:1])]
        puts += [e for e in mine if e.kind == "mutate" and e.how in ("extend", "augassign") and any(
            processed(y, 0) for x in contents(fl, e.args[0], e.state) or () for y in (contents(fl, x, e.state) or ())[:1])]
        others = [e for e in mine if e.kind == "mutate" and e not in puts and e.how in (
            "append", "extend", "augassign", "insert", "appendleft", "setitem")]
        if not puts:
            if unnamed(it.conds):
                continue
            if bulk:
                r.skip("members", what, "recorded together")
            elif others:
                r.skip("members", what, "recorded by %s" % others[-1].how)
                w = [e for e in others if e.how in ("insert", "appendleft") and (e.how != "insert" or e.args[0] == C(0))]
                if w:
                    r.bad("members", what, "put before the previous members", where(w[0]))
            else:
                r.bad("members", what, "left out%s" % because(it.conds), where(it))
            continue
        if len(puts) > 1:
            r.bad("members", what, "recorded twice", where(puts[1]))
        for e in puts:
            lists.add(fl.strip(e.target))
            c = contents(fl, e.args[0], e.state)
            for c in (c,) if e.how == "append" else [contents(fl, x, e.state) for x in c]:
                one(ctx, what, c, it, site, src, e)
    # members without declarator, in the loop over the members
    outer = loops(ctx, fl, f, "members", "members")
    dl = {s for i, s, m, x in inner}
    for it, site, mine, src in outer:
        # the turns of the inner loop are looked at on their own
        puts = [e for e in mine if e.kind == "mutate" and e.how == "append" and not (
            e.loops and e.loops[-1][0] in dl)]
        what = "%s: a member without declarator" % it.func.qual
        got = [(e, contents(fl, e.args[0], e.state)) for e in puts]
        whole = [e for e in mine if e.kind == "mutate" and e.how in ("extend", "augassign") and e.args and not (
            e.loops and e.loops[-1][0] in dl)]
        for e in whole:
            items = contents(fl, e.args[0], e.state)
            got += [(e, contents(fl, x, e.state)) for x in items or ()]
            if items or fl.strip(e.args[0]) in lists:
                lists.add(fl.strip(e.target))
        got = [(e, c) for e, c in got if c and c[0] == NONE]
        unclear = any(contents(fl, e.args[0], e.state) is None for e in whole)
        can = [n for n in (0, 1, 2) if possible(it.conds, n)]
        if (unclear or bulk) and not got:
            if 0 in can:
                r.skip("members", what, "recorded in an unknown way")
        elif can == [0]:
            r.check(got, "members", what, "left out%s" % because(it.conds), where(it))
        elif got and (1 in can or 2 in can):
            r.bad("members", what, "recorded for the members which have one", where(it))
        elif 0 in can and not got:
            if any(x[0] == "new" and str(x[1]).endswith("Type") for e in mine for y in e.args if isinstance(y, tuple)
                   for x in subterms(y)):
                r.skip("members", what, "recorded in an unknown way")
            else:
                r.bad("members", what, "left out%s" % because(it.conds), where(it))
        for e, c in got:
            lists.add(fl.strip(e.target))
            width(ctx, what, c, it.conds, e)
            r.check(len(c) > 1 and named(c[1], "type"), "members", what, "its type is %s" % (
                show(c[1])[:50] if len(c) > 1 else "lost"), where(e))
    if not n:
        absent(ctx, fl, f, "members")
        return
    # the structure recorded is made of them
    k = 0
    for s, o in fl.outcomes:
        for e in s.trace:
            d = defined(e)
            if not d or d[0] == C("types") or d[2][0] != "new":
                continue
            what = "%s: the structure" % f.qual
            args = d[2][2]
            k += 1
            src = fl.strip(args[0][1]) if len(args) == 1 and args[0][0] == "star" else None
            if src is None:
                r.check(bool(args), "members", what, "recorded without its members", where(e))
                continue
            b = rows.peel(src)
            if b[0] in lists:
                r.check(b[1], "members", what, "its members are reordered (%s)" % b[2], where(e))
            elif any(x == ("builtin", "set") or x[0] == "method" and x[2] == "fromkeys" for x in subterms(src)):
                r.bad("members", what, "members are merged", where(e))
            elif src[0] in ("unk", "phi", "comp", "call"):
                r.skip("members", what, "made of %s" % show(src)[:50])
            else:
                r.bad("members", what, "made of %s" % show(src)[:50], where(e))
            st = [w for a, w in s.conds.items() if a[0] == "eq" and C("struct") in a[1:3]]
            un = [w for a, w in s.conds.items() if a[0] == "eq" and C("union") in a[1:3]]
            cls = str(d[2][1]).split(".")[-1]
            told = st[0] if st else (not un[0] if un else None)
            if told is None and not any(field(x) in ("struct_type", 0) for a in s.conds for x in subterms(a)):
                r.bad("members", what + ": kind", "always recorded as a %s" % cls, where(e))
            elif told is None:
                r.skip("members", what + ": kind", "the kind is told in an unknown way")
            else:
                r.check(cls == ("Struct" if told else "Union"), "members", what + ": kind", "a %s is recorded as a %s" % (
                    "structure" if told else "union", cls), where(e))
    if not k:
        r.skip("members", f.qual, "how the members are recorded is unknown")


def possible(conds, n):
    """Whether a member with n declarators can take the path."""
    def val(t):
        if is_const(t):
            return t[2]
        if field(t) == "decl_list":
            return ("list", n)
        if t[0] == "call" and t[1] == ("builtin", "len") and field(t[2][0]) == "decl_list":
            return n
        return Ellipsis

    for a, w in conds.items():
        if not named(a, "decl_list"):
            continue
        if a[0] in ("eq", "is", "lt", "le", "gt", "ge") and len(a) == 3:
            x, y = val(a[1]), val(a[2])
            if not isinstance(x, int) or not isinstance(y, int):
                continue
            got = {"eq": x == y, "is": x == y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[a[0]]
        else:
            got = val(a)
            if got is Ellipsis:
                continue
            got = bool(got[1]) if isinstance(got, tuple) else bool(got)
        if got is not w:
            return False
    return True


def one(ctx, what, c, it, site, src, e):
    r = ctx.r
    here = where(e)
    p = processed(c[0], 0)
    typ, d = arguments(p)
    r.check(is_elem(d, site, src), "members", what, "the declarator processed is %s" % show(d)[:50], here)
    r.check(named(typ, "type") or field(typ) == 0, "members", what, "processed with %s as its type" % show(typ)[:50], here)
    if len(c) < 2:
        r.bad("members", what, "recorded without its type", here)
        return
    value(ctx, "members", what, c[1], p, here)
    width(ctx, what, c, it.conds, e)


def width(ctx, what, c, conds, e):
    """(name, type, value[, width]) with a width if the member has one."""
    r = ctx.r
    here = where(e)
    bit = bit_told(conds)
    if len(c) < 3:
        r.bad("members", what, "recorded without its value", here)
        return
    v = c[2]
    ok = v == NONE or v[0] == "call" and callee(v) in ("eval_expr", "eval")
    if not ok:
        (r.skip if v[0] in ("unk", "phi", "call") else lambda a, b, x: r.bad(a, b, x, here))(
            "members", what + ": value", "it is %s" % show(v)[:50])
    what += ": bit width"
    if bit == "no such path":
        return
    if bit == "other":
        r.skip("members", what, "told in an unknown way")
    elif bit is True:
        if len(c) != 4:
            r.bad("members", what, "left out", here)
        else:
            w = c[3]
            if w[0] == "call" and w[1] == ("builtin", "int") and w[2]:
                w = w[2][0]
            r.check(field(w) == "bit", "members", what, "it is %s" % show(c[3])[:40], here)
    elif bit is False:
        r.check(len(c) == 3, "members", what, "given to a member without one", here)
    else:
        r.bad("members", what, "not looked at", here)


def tags(ctx, name):
    r = ctx.r
    f = ctx.method(ctx.CParser, name)
    fl = flow(ctx, f)
    enum = name == "process_enum"
    for s, o in fl.outcomes:
        if raised(s):
            continue
        if o[0] == "raise":
            continue
        R = o[1]
        what = "%s: the tag" % f.qual
        types = [(e, defined(e)) for e in s.trace if defined(e) and defined(e)[0] == C("types")]
        own = [(e, defined(e)) for e in s.trace if defined(e) and defined(e)[0] not in (C("types"), C("values"))]
        if R == NONE or is_const(R):
            r.bad("tag", what, "no name is returned%s" % because(s.conds), f.qual)
            continue
        pieces = joined(strings(R))
        known = [(a, w) for a, w in s.conds.items() if a[0] == "in" and table(a[2])]
        anon = [w for a, w in s.conds.items() if about_name(a) and empty_name(a)]
        anon = [w if a_eq else not w for (a, w), a_eq in (
            ((a, w), a[0] in ("eq", "is")) for a, w in s.conds.items() if empty_name(a))]
        if own and not types:
            r.bad("tag", what, "no type is recorded for it", f.qual)
        if types and not own:
            r.bad("tag", what, "its content is not recorded", f.qual)
        for e, (k, key, val) in types:
            r.check(joined(strings(key)) == pieces, "tag", what, "%s is recorded and %s returned" % (
                show(key)[:40], show(R)[:40]), where(e))
            if val[0] == "new" and str(val[1]).endswith("Type"):
                a = []
                for x in val[2]:
                    a += ([C(" ")] if a else []) + strings(x)
                r.check(joined(a) == pieces, "tag", what, "its type is %s" % show(val)[:60], where(e))
        tag = None
        for e, (k, key, val) in own:
            tag = key
            kind = strings(k)
            if kind and is_const(kind[-1]) and isinstance(kind[-1][2], str) and kind[-1][2].endswith("s"):
                kind[-1] = C(kind[-1][2][:-1])
                r.check(joined(kind + [C(" ")] + strings(key)) == pieces, "tag", what,
                        "%s of %s is recorded and %s returned" % (show(key)[:40], show(k)[:20], show(R)[:40]), where(e))
            else:
                r.skip("tag", what, "recorded among %s" % show(k)[:40])
        # anonymous tags get an unused name
        if anon and anon[0]:
            fresh = [a for a, w in known if not w and (tag is None or a[1] == tag) and in_table(a[2], own)]
            if own and tag is not None and not fresh and free(tag):
                r.skip("tag", what + " (anonymous)", "its name is %s" % show(tag)[:50])
            elif own:
                r.check(fresh, "tag", what + " (anonymous)", "its name can be in use", f.qual)
        elif anon:
            text = [w for a, w in s.conds.items() if a[0] == "call" and a[1] == ("builtin", "isinstance")
                    and field(a[2][0]) == "name"]
            first = any(x[0] == "item" and x[2] == C(0) and field(x[1]) == "name" for y in pieces for x in subterms(y))
            if first and not (text and not text[0]):
                r.bad("tag", what, "only the first letter of its name is taken", f.qual)
            r.check(any(field(x) == "name" for y in pieces for x in subterms(y)), "tag", what,
                    "its name is not the one of the header", f.qual)
        # definitions are kept
        mem = [w for a, w in s.conds.items() if about_members(a)]
        stored = [(a, w) for a, w in s.conds.items() if about_content(a)]
        isin = [w for a, w in known if tag is None or a[1] == tag]
        empty = None
        for a, w in stored:
            if a[0] == "eq":
                looks = any(is_const(x) and x[2] == "members" for x in subterms(a)) or named(a, "members")
                empty = (w if (enum or looks) else (True if w else None))
            else:
                looks = any(is_const(x) and x[2] == "members" for x in subterms(a)) or named(a, "members")
                empty = (not w) if (enum or looks) else None
        if isin and not isin[0] and empty is False:
            continue  # no such path
        if own:
            if not (mem and mem[0]) and not (isin and not isin[0]) and empty is not True:
                r.bad("kept", what, "a definition is replaced by a reference%s" % because(s.conds), f.qual)
            else:
                r.ok("kept", what)
        else:
            if mem and not mem[0]:
                r.ok("kept", what)
            elif empty is False and (isin and isin[0] or any(x[0] == "call" for a, w in stored for x in subterms(a))):
                r.ok("kept", what)
            elif isin and isin[0] and stored and empty is None:
                r.bad("kept", what, "a definition does not replace a reference", f.qual)
            else:
                r.bad("kept", what, "not recorded%s" % because(s.conds), f.qual)


def free(tag):
    """The name can be one which is looked for among the free ones."""
    for x in subterms(tag):
        if x[0] == "unk" or x[0] == "in" and table(x[2]) or x[0] == "bin" and x[1] == "Sub":
            return True
        if x[0] == "comp" and any(a[0] == "in" and table(a[2]) for a, w in x[4] if isinstance(a, tuple)):
            return True
        if x == ("builtin", "next") and not any(y[0] == "comp" for y in subterms(tag)):
            return True
    return False


def in_table(t, own):
    """The table is the one in which the tag is recorded."""
    for x in subterms(t):
        if x[0] == "item" and x[1][0] == "attr" and x[1][2] == "defs":
            return all(strings(x[2]) == strings(d[0]) for e, d in own)
    return True


def table(t):
    return any(x[0] == "attr" and x[2] == "defs" for x in subterms(t))


def about_name(a):
    return any(field(x) == "name" for x in subterms(a))


def empty_name(a):
    """The condition tells whether the tag has a name."""
    if a[0] in ("eq", "is") and any(is_const(y) and y[2] in ("", None) for y in a[1:3]):
        return any(x[0] == "attr" and x[2] == "name" or field(x) == "name" for x in a[1:3])
    return field(a) == "name"


def about_members(a):
    if field(a) == "members" and not table(a):
        return True
    if a[0] == "call" and a[1] == ("builtin", "len") and field(a[2][0]) == "members" and not table(a):
        return True
    return False


def about_content(a):
    """The condition is about what is recorded under the name."""
    if a[0] == "in":
        return False
    return any(x[0] == "item" and x[1][0] == "item" and table(x[1]) or x[0] == "call" and x[1][0] == "method"
               and x[1][2] == "get" and table(x[1][1]) and len(x[2]) >= 1 for x in subterms(a))
