"""Native functions are declared with the prototype of the headers."""

import ast

from ..common import own_nodes, where
from ..flow import C, NONE, is_const, mentions, show, subterms
from ..program import AnalysisBroken
from ..rows import INDEX, ITEM, Rows, Unknown, has

TITLE = "native functions are declared with the types of the headers before they are used"
RULES = (
    "every path of the construction of the wrapper of a function is followed through the "
    "backend: when it ends, argtypes of the native function has been set to the list made "
    "of the type resolved from the type of each parameter, in order, all of them but a "
    "lone void, and restype to the type resolved from the return type of the signature; "
    "nothing else in the package sets either; the type reported for an argument is "
    "resolved from that of the parameter of that name or index."
)
ASSUMPTIONS = ("ctypes converts arguments and results as argtypes and restype tell",)
SELF = ("param", "self")
CONV = {"__stdcall", "__cdecl"}


def resolved(t, name="_get_type"):
    """The term resolved, if the term is a resolution with its pointers."""
    if t[0] != "call" or str(t[1][-1]).split(".")[-1] != name:
        return None
    a = [x for x in t[2] if x not in (("param", "lib"), ("attr", SELF, "lib"), SELF)]
    kw = dict(t[3]) if len(t) > 3 and t[3] else {}
    if "typ" in kw:
        a.insert(0, kw.pop("typ"))
    if len(a) > 2 or not a:
        return None
    ptr = a[1] if len(a) > 1 else kw.get("pointers", C(True))
    if not is_const(ptr) or ptr[2] is not True:
        return None
    return a[0]


def run(ctx):
    prototype(ctx)
    elsewhere(ctx)
    reported(ctx)
    for k in ("argtypes", "restype", "reported"):
        ctx.r.floor(k, 1)


def flow(ctx):
    f = ctx.method(ctx.CFunction, "__init__")
    lib = ("param", f.params[1])
    return f, ctx.flow(f, key="c28", implicit=False, opaque=lambda x: x.name in ("_get_type", "eval_type", "eval"),
                       types=lambda t: ctx.Backend if t == lib else ctx.types(t))


def is_sig(t, i):
    """Part i of the signature given (or of the copy kept)."""
    return t[0] == "item" and t[2] == C(i) and t[1] in (("param", "sig"), ("attr", SELF, "sig"))


def last(trace, fl, names, func):
    """The last value given to each attribute of the native function."""
    out = {}
    for e in trace:
        if e.kind == "setattr" and e.args[0] in names and fl.strip(e.target) in func:
            out[e.args[0]] = e
        elif e.kind == "call" and e.target == ("builtin", "setattr") and len(e.args) == 3 \
                and fl.strip(e.args[0]) in func and is_const(e.args[1]) and e.args[1][2] in names:
            out[e.args[1][2]] = e
    return out


def value(e):
    return e.value if e.kind == "setattr" else e.args[2]


def prototype(ctx):
    r = ctx.r
    f, fl = flow(ctx)
    func = (("param", "func"), ("attr", SELF, "func"))
    rows = Rows(fl)
    n = 0
    del VOIDS[:]
    for s, o in fl.outcomes:
        if o[0] == "raise":
            continue
        n += 1
        got = last(s.trace, fl, ("argtypes", "restype"), func)
        for name, judge in (("argtypes", arguments), ("restype", result)):
            e = got.get(name)
            if e is None:
                r.bad(name, f.qual, "the native function is handed out without %s%s" % (
                    name, under(s, fl)), f.qual)
                continue
            judge(ctx, fl, rows, value(e), name, e)
    if VOIDS:
        voids = [a for v, e in VOIDS for a in v]
        r.check(any(evaluated(a) for a in voids), "argtypes", "argtypes of the native function: lone void",
                "a typedef of void is declared as a parameter" if voids else "void is declared as a parameter",
                where(VOIDS[0][1]))
    if not n:
        raise AnalysisBroken("%s never ends" % f.qual)


def under(s, fl):
    c = ["%s%s" % ("" if v else "not ", show(a)[:60]) for a, v in s.conds.items()]
    return " when " + " and ".join(c[:2]) if c else ""


def is_void(t):
    """The whole type is ("void",)."""
    if t[0] == "tuple" and t[1] == (C("void"),):
        return True
    if t[0] in ("new", "call") and str(t[1]).endswith("Type") and t[2][-1:] == (C("void"),) and len(t[2]) <= 2:
        return True
    if t[0] == "consts" and t[1] == (C("void"),):
        return True
    return t[0] == "list" and t[1] == (C("void"),)


TYPE = ("item", ITEM, C(1))


def of_type(t):
    """The term is the type of the parameter (or what it stands for)."""
    while t[0] == "call" and (t[1] in (("builtin", "tuple"), ("builtin", "list")) and len(t[2]) == 1
                              or str(t[1][-1]).split(".")[-1] in ("eval_type", "eval")):
        t = next((x for x in t[2] if has(x, TYPE)), NONE)
        if t == NONE:
            return False
    return t == TYPE


def kind(a):
    """What a condition about a parameter tells."""
    if a[0] in ("eq", "in") and len(a) == 3:
        x, y = a[1], a[2]
        if of_type(y):
            x, y = y, x
        if of_type(x):
            if is_void(y):
                return "void"
            if y[0] == "tuple" and all(is_void(v) for v in y[1]) and a[0] == "in":
                return "void"
        if is_const(y) and y[2] == "void" or is_const(x) and x[2] == "void":
            return "base"
    if has(a, TYPE) and (any(x[0] == "call" and x[1] == ("builtin", "len") for x in subterms(a))
                         or any(
                             x[0] == "attr" and x[2] == "declarators" or x[0] == "slice" for x in subterms(a))):
        return "more"
    return None


def tells_void(a):
    return any(is_void(x) or is_const(x) and x[2] == "void" for x in subterms(a))


def evaluated(a):
    """The condition is about the type behind the typedefs."""
    return any(x[0] == "call" and str(x[1][-1]).split(".")[-1] in ("eval_type", "eval", "_get_type") for x in subterms(a))


VOIDS = []


def arguments(ctx, fl, rows, v, name, e):
    r = ctx.r
    what = "%s of the native function" % name
    try:
        b = rows.built(v)
    except Unknown as x:
        r.skip(name, what, "the list of types is built in an unknown way: %s" % x)
        return
    src = b.source
    outside = [(a, w) for a, w in e.conds.items() if tells_void(a)]
    if src[0] == "const" or src[0] in ("list", "tuple") and not src[1]:
        if any(w for a, w in outside):
            # chosen for a parameter list which is a lone void
            r.check(any(evaluated(a) for a, w in outside if w), name, what + ": void",
                    "a typedef of void is not taken for void", where(e))
            return
        r.bad(name, what, "no type is declared", where(e))
        return
    if not is_sig(src, 1):
        t = src
        while t[0] == "call" and t[1][0] == "method" and t[1][2] in ("values", "items", "keys"):
            t = t[1][1]
        if t[0] == "comp" and t[1] in ("dict", "set") and has(t[2], C(0)) and mentions(t, ("param", "sig")):
            r.bad(name, what, "parameters of the same name (or without name) are declared once", where(e))
            return
        if mentions(src, ("param", "sig")) or src[0] == "unk":
            r.check(not is_sig(src, 0) and src != ("param", "sig"), name, what, "made of %s" % show(src)[:60], where(e))
            r.skip(name, what, "made of %s" % show(src)[:60])
        else:
            r.bad(name, what, "not made of the parameters of the signature but of %s" % show(src)[:60], where(e))
        return
    r.check(b.ordered, name, what + ": order", "not the parameters in order (%s)" % b.why, where(e))
    kept = [(x, c) for x, c in b.alts if x is not None]
    for x, c in kept:
        t = resolved(x)
        r.check(t == TYPE, name, what + ": type", "%s is declared for a parameter" % show(x)[:60], where(e))
    r.check(bool(kept), name, what + ": given", "no type is declared", where(e))
    bases = []
    voids = [a for x, c in b.alts for a in c if tells_void(a)] + [a for a, w in outside]
    VOIDS.append((voids, e))
    for x, c in kept:
        ks = {}
        for a, w in c.items():
            if not (has(a, ITEM) or has(a, INDEX)):
                continue
            k = kind(a)
            if k is None:
                r.bad(name, what + ": all", "only some parameters are declared: %s%s" % (
                    "" if w else "not ", show(a)[:80]), where(e))
            ks[k] = w
        bases.append(ks.get("base") is False)
    r.check(not bases or not all(bases), name, what + ": void",
            "a parameter which is a pointer to void is not declared", where(e))


def result(ctx, fl, rows, v, name, e):
    r = ctx.r
    what = "%s of the native function" % name
    v = fl.strip(v)
    t = resolved(v)
    if t is None:
        if v[0] == "call" and str(v[1][-1]).split(".")[-1] == "_get_type":
            r.bad(name, what, "the type is resolved without its pointers", where(e))
        elif v[0] in ("unk", "phi", "ifexp", "or", "and", "obj") or v[0] == "call" and mentions(v, ("param", "sig")) \
                and not any(resolved(x) for x in subterms(v) if x[0] == "call"):
            r.skip(name, what, "the value is %s" % show(v)[:60])
        else:
            r.bad(name, what, "it is %s, not the type of the result" % show(v)[:60], where(e))
        return
    t = fl.strip(t)
    if t[0] == "new" or t[0] == "call" and str(t[1][-1]).endswith("Type"):
        args = [x for x in t[2]]
        if len(args) == 1 and args[0][0] == "star":
            try:
                b = rows.built(args[0][1])
            except Unknown as x:
                r.skip(name, what, "the type is built in an unknown way: %s" % x)
                return
            if not is_sig(b.source, 0):
                r.bad(name, what, "resolved from %s" % show(b.source)[:60], where(e))
                return
            r.check(b.ordered, name, what + ": order", "not the modifiers in order (%s)" % b.why, where(e))
            for x, c in b.alts:
                if x is None:
                    r.check(any(convention(a, w, True) for a, w in c.items()), name, what + ": modifiers",
                            "modifiers of the type are left out", where(e))
                    continue
                r.check(x == ITEM, name, what + ": modifiers", "changed to %s" % show(x)[:50], where(e))
                for a, w in c.items():
                    if has(a, ITEM) or has(a, INDEX):
                        r.check(convention(a, w, False), name, what + ": modifiers",
                                "left out unless %s%s" % ("" if w else "not ", show(a)[:60]), where(e))
            return
        if args and is_sig(fl.strip(args[0]), 0) or any(mentions(x, ("param", "sig")) for x in args):
            r.skip(name, what, "the type is %s" % show(t)[:60])
            return
    r.check(is_sig(t, 0), name, what, "resolved from %s" % show(t)[:60], where(e))


def convention(a, w, want):
    """The condition tells the modifier is (not) a calling convention."""
    if a[0] in ("call", "isinstance") and "isinstance" in str(a[:2]):
        return not want  # a modifier which is no text is kept
    if a[0] not in ("in", "eq") or w is not want or ITEM not in a[1:3]:
        return False
    o = next((x for x in a[1:3] if x != ITEM), NONE)
    vals = o[1] if a[0] == "in" and o[0] in ("consts", "tuple", "list", "set") else (o,)
    return bool(vals) and all(is_const(x) and x[2] in CONV for x in vals)


def elsewhere(ctx):
    r = ctx.r
    _, fl = flow(ctx)
    seen = {(e.func.module.rel, e.node.lineno) for e in fl.events if e.kind == "setattr"}
    for g in ctx.functions():
        for n in own_nodes(g.node):
            if isinstance(n, ast.Attribute) and n.attr in ("argtypes", "restype") and not isinstance(n.ctx, ast.Load):
                at = (g.module.rel, n.lineno)
                if at in seen or g.name == "_init_function":
                    continue
                r.bad("elsewhere", "%s sets %s" % (g.qual, n.attr),
                      "what a native function takes or returns is changed once declared", "%s:%d" % at)
    r.ok("elsewhere", "argtypes and restype are set nowhere else")


def reported(ctx):
    r = ctx.r
    f = ctx.CFunction.find("arg_c_type")
    if f is None:
        r.skip("reported", "arg_c_type", "no such method")
        return
    fl = ctx.flow(f, key="c28r", implicit=False, opaque=lambda x: x.name == "_get_type")
    p = ("param", f.params[1])
    inds = ("attr", SELF, "arg_inds")
    good = (p, ("item", inds, p), ("call", ("method", inds, "get"), (p, p), ()))
    named = direct = False
    for s, o in fl.outcomes:
        if o[0] == "return":
            for x in subterms(o[1]):
                if x[0] == "item" and x[2] == p and x[1] != inds:
                    direct = True
                elif x[0] not in ("param",) and p in x[1:] or x[0] == "call" and p in x[2]:
                    named = True
    r.check(named or not direct, "reported", "%s: names" % f.qual, "names are not looked up", f.qual)
    for s, o in fl.outcomes:
        if o[0] != "return":
            continue
        v = fl.strip(o[1])
        text = None  # whether the argument is a name, as far as it was looked at
        for a, x in s.conds.items():
            if a[0] == "call" and a[1] == ("builtin", "isinstance") and a[2] == (p, ("builtin", "str")):
                text = x
            if a[0] == "call" and a[1] == ("builtin", "isinstance") and a[2] == (p, ("builtin", "int")):
                text = not x
        for x in subterms(v):
            if x[0] == "item" and p in x[1:] and x[1] not in (inds, p) and text is not None:
                r.check(not text, "reported", "%s: by name" % f.qual, "a name is used as an index", f.qual)
        if mentions(v, ("item", inds, p)) and text is not None:
            r.check(text, "reported", "%s: by index" % f.qual, "an index is looked up as a name", f.qual)
        for a in s.conds:
            if a[0] == "call" and a[1] == ("builtin", "isinstance") and a[2][1:] == (p,):
                r.bad("reported", "%s: kind of argument" % f.qual, "the argument is taken for a class", f.qual)
        if v[0] == "item" and v[1] == ("attr", SELF, "arg_types") and v[2] in good:
            r.ok("reported", f.qual)
            continue
        t = resolved(v)
        what = "%s gives %s" % (f.qual, show(v)[:60])
        if not mentions(v, p) and v[0] not in ("obj", "phi", "unk"):
            r.bad("reported", what, "it is the same for all the parameters", f.qual)
            continue
        if t is None:
            (r.bad if is_const(v) or v[0] == "item" or str(v[1][-1]).endswith("_get_type") else r.skip)("reported", what, "not the type of a parameter")
            continue
        ok = t[0] == "item" and t[2] == C(1) and t[1][0] == "item" and is_sig(t[1][1], 1) and t[1][2] in good
        r.check(ok, "reported", what, "not the type of that parameter", f.qual)
