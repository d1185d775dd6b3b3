"""One class per structure or union, whatever name is used to reach it."""

import ast

from ..common import own_nodes, where
from ..flow import C, NONE, is_const, mentions, show, subterms
from ..program import AnalysisBroken
from .c13 import KINDS, analyse, bases, is_class

TITLE = "a structure or union has a single class in a library, whatever name is used"
RULES = (
    "classes of structures are created only where they are registered, under the tag the "
    "requested name resolves to (the name itself only when it is a tag, otherwise the tag "
    "its fully evaluated typedef denotes), after the registry was found not to hold that "
    "tag; members and packing are read from the definition of that very tag; what is "
    "returned is the registered class; completed classes never leave the registry, which "
    "belongs to the library; types resolve a structure through the tag of the evaluated type."
)
ASSUMPTIONS = ("structures and unions share a single name space of tags, as in C",)


def defs_of(t, what):
    """The term is lib._defs_[what] (or headers.defs[what])."""
    return t[0] == "item" and t[2] == what and t[1][0] == "attr" and t[1][2] in ("_defs_", "defs")


def tag_of(t, fl, name):
    """The term is the tag denoted by an evaluated type; returns the evaluated type."""
    t = fl.strip(t)
    ev = [x for x in subterms(t) if x[0] == "call" and x[1][0] == "func" and x[1][1].endswith(".eval_type")
          or x[0] == "call" and x[1][0] == "method" and x[1][2] in ("eval_type", "eval")]
    if not ev:
        return None
    ev = max(ev, key=lambda x: len(str(x)))

    def outside(x):
        if x == ev:
            return False
        return x == name or isinstance(x, tuple) and any(isinstance(y, tuple) and outside(y) for y in x)
    if outside(t) or not (arg_ok(ev, name, fl)):
        return None
    # types[head][1] or the head without its keyword
    if t[0] == "item" and t[2] == C(1) and t[1][0] == "item" and defs_of(t[1][1], C("types")):
        head = fl.strip(t[1][2])
        if head[0] == "item" and fl.strip(head[1]) == ev and is_const(head[2]):
            return ev if head[2] == C(0) else None
        if mentions(head, ev):
            return ev
    return None


def arg_ok(ev, name, fl):
    return mentions(ev, name) or any(x[0] in ("obj", "new") for x in ev[2])


def run(ctx):
    p, r = ctx.p, ctx.r
    inlined = set()
    for kind, base in KINDS:
        f, fl = analyse(ctx, kind)
        name = ("param", f.params[2])
        regs = set()
        for e in fl.events:
            inlined.update(e.stack or ())
            if e.kind == "mutate" and e.how in ("setitem", "setdefault") and len(e.args) == 2 and is_class(
                    fl.strip(e.args[1])):
                regs.add(fl.strip(e.target))
        if len(regs) != 1:
            raise AnalysisBroken("registry of the classes not identified in %s" % f.qual)
        reg = regs.pop()
        what = "%s of %s" % (f.qual, kind)
        for e in fl.events:
            if e.kind != "mutate" or fl.strip(e.target) != reg:
                continue
            if e.how in ("setitem", "setdefault"):
                key = fl.strip(e.args[0])
                r.check(canonical(key, e.conds, fl, name, kind), "registered-by-tag", what,
                        "registered under %s" % show(key)[:80], where(e))
                r.check(absent(key, reg, e.conds, fl), "looked-up-first", what,
                        "the registry is not searched for the tag before a class is created", where(e))
                r.check(is_class(fl.strip(e.args[1])), "registered-by-tag", what + ": value", show(e.args[1])[:60], where(e))
            else:
                done = [x for x in e.trace if x.kind == "setattr" and x.args[0] == "_fields_"]
                r.check(not done, "never-dropped", what, "a complete class leaves the registry", where(e))
        # the definition read is the one of the tag
        for e in fl.events:
            vals = []
            if e.kind == "setattr" and e.args[0] in ("_pack_", "_fields_"):
                vals = [e.value]
            if e.kind == "call" and e.target[0] == "func" and e.target[1].endswith("._get_type"):
                vals = list(e.args)
            for v in vals:
                for x in subterms(v):
                    if x[0] == "item" and (x[1][0] == "item" and x[1][1][0] == "attr" and x[1][1][2] in ("_defs_", "defs")):
                        if x[1][2] == C("types"):
                            continue
                        r.check(x[1][2] == C(kind) and canonical(fl.strip(x[2]), e.conds, fl, name, kind),
                                "definition-of-tag", what,
                                "built from %s" % show(x)[:80], where(e))
        for s, o in fl.outcomes:
            if o[0] != "return":
                continue
            v = fl.strip(o[1])
            own = {}
            for e in s.trace:
                if e.kind == "mutate" and fl.strip(e.target) == reg and e.how in ("setitem", "setdefault"):
                    own[fl.strip(e.args[0])] = fl.strip(e.args[1])
            if is_class(v):
                r.check(v in own.values(), "returns-registered", what, "returns a class which is not registered", f.qual)
                continue
            key = read_of(v, reg, fl)
            if key is None:
                r.bad("returns-registered", what, "returns %s" % show(v)[:80], f.qual)
                continue
            k = fl.strip(key)
            ok = k in own or k == name and present(k, reg, s.conds, fl) or canonical(k, s.conds, fl, name, kind)
            r.check(ok, "returns-registered", what, "returns the class of %s" % show(k)[:60], f.qual)

    # resolution of the names
    g = ctx.CLibrary.find("_resolve_struct_alias") or ctx.Backend.find("_resolve_struct_alias")
    if g is not None:
        gl = ctx.flow(g, key="c14", opaque=lambda x: x.name == "eval_type")
        kindp, namep = ("param", g.params[1]), ("param", g.params[2])
        for s, o in gl.outcomes:
            if o[0] != "return":
                continue
            v = gl.strip(o[1])
            if v == namep:
                ok = any(a[0] == "in" and a[1] == namep and pol and defs_of(gl.strip(a[2]), kindp)
                         for a, pol in s.conds.items())
                r.check(ok, "resolves", "%s returns the name" % g.qual,
                        "the name is taken for a tag without being one", g.qual)
            else:
                ok = tag_of(v, gl, namep) is not None
                r.check(ok, "resolves", "%s returns the tag" % g.qual, "returns %s" % show(v)[:80], g.qual)
                isin = any(a[0] == "in" and a[1] == namep and not pol and defs_of(gl.strip(a[2]), kindp)
                           for a, pol in s.conds.items())
                r.check(isin, "resolves", "%s: a tag is its own name" % g.qual,
                        "a name which is a tag is resolved as a typedef", g.qual)
        found = resolution(ctx, g, ctx.flow(g, key="c14x", implicit=False, opaque=lambda x: x.name == "eval_type"),
                           kindp, namep)
        r.check(found, "resolves", "%s: names of typedefs" % g.qual, "never resolved to the tag", g.qual)
        r.floor("resolves", 3)

    # types reach structures by the tag
    h = ctx.method(ctx.Backend, "_get_type")
    hl = ctx.flow(h, key="c14", implicit=False, max_states=60000,
                  opaque=lambda x: x.name in ("_get_struct", "eval_type") or x is h)
    n, built = 0, set()
    for e in hl.events:
        if e.kind == "call" and e.target[0] == "func" and e.target[1].endswith("._get_struct"):
            args = [x for x in e.args if x != ("param", "self")]
            kws = dict(e.kwargs or ())
            kind = args[0] if args else kws.get(ctx.method(ctx.Backend, "_get_struct").params[1])
            nm = args[1] if len(args) > 1 else kws.get(ctx.method(ctx.Backend, "_get_struct").params[2])
            n += 1
            pre = prefixes(e.conds, hl)
            want = {C("structs"): "struct ", C("unions"): "union "}.get(kind)
            built |= {k for k in ("structs", "unions") if kind == C(k)}
            if want is None and computed(kind, e.conds, hl):
                pre = want = True
                built |= {"structs", "unions"}
            r.check(want is not None and pre == want, "type-to-tag", "%s: %s" % (h.qual, show(kind)),
                    "a type starting with %r is built among the %s" % (pre, show(kind)), where(e))
            r.check(nm is not None and tag_of(nm, hl, ("param", h.params[1])) is not None, "type-to-tag",
                    "%s: tag of %s" % (h.qual, show(kind)), "built from %s" % show(nm)[:80] if nm else "?", where(e))
    for k in ("structs", "unions"):
        r.check(k in built, "type-to-tag", "%s: %s" % (h.qual, k), "no type is built from them", h.qual)
    constant_tests(ctx, h, hl, "type-to-tag")
    if n < 2:
        raise AnalysisBroken("structures are not resolved by %s" % h.qual)

    # nobody else creates classes or touches the registry
    attr = reg[2] if reg[0] == "attr" else None
    for q, fn in sorted(p.functions.items()):
        if fn.module.name.startswith(("thirdparty", "headers")):
            continue
        mutates = None
        for x in own_nodes(fn.node):
            if isinstance(x, ast.ClassDef) and any(
                    getattr(b, "id", getattr(b, "attr", "")) in ("Structure", "Union") for b in x.bases):
                r.check(q in inlined, "single-creation", q, "creates classes of structures besides", "%s:%d" % (fn.module.rel, x.lineno))
            if attr and isinstance(x, ast.Attribute) and x.attr == attr:
                mutates = x
        if mutates is None or q in inlined:
            continue
        fl2 = ctx.flow(fn, key="c14r", implicit=False, opaque=lambda x: x.name != fn.name and ctx.size(x) > 60)
        for e in fl2.events:
            if e.kind == "setattr" and e.args[0] == attr:
                v = fl2.strip(e.value)
                r.check(fn.name == "__init__" and v[0] == "obj" and v[1] == "dict" or (
                    fn.name == "__init__" and v[0] == "call" and v[1] == ("builtin", "dict") and not v[2]),
                    "own-registry", q, "the registry becomes %s" % show(v)[:60], where(e))
            elif e.kind == "mutate" and fl2.strip(e.target)[0] == "attr" and fl2.strip(e.target)[2] == attr:
                r.bad("own-registry", q, "the registry is changed (%s)" % e.how, where(e))
    # set for each instance
    if attr:
        if not any(k == "own-registry" for k, _, _, _ in r.obligations):
            r.bad("own-registry", ctx.CLibrary.qual, "the registry is not created for each library", "")
    for k in ("registered-by-tag", "looked-up-first", "definition-of-tag", "returns-registered"):
        r.floor(k, 2)


def words(a):
    """The keywords a test of the head of a type looks for, with the blank; None for other tests.

    The empty set for a comparison with a slice of another length: it can never hold.
    """
    if a[0] == "eq":
        for x, y in ((a[1], a[2]), (a[2], a[1])):
            if is_const(x) and x[2] in ("struct ", "union ", "enum ", "void") and modifier(y):
                return set()
            if is_const(x) and isinstance(x[2], str) and y[0] == "slice" and y[2] in (NONE, C(0)) and is_const(
                    y[3]) and isinstance(y[3][2], int) and y[3][2] >= 0:
                return {x[2]} if len(x[2]) == y[3][2] else set()
            if is_const(x) and x[2] in ("struct ", "union ", "enum ") and y[0] == "item" and y[2] == C(0) and (
                    y[1][0] == "call"):
                return set()  # the whole of it
        return None
    if a[0] == "call" and a[1][0] == "method" and a[1][2] == "startswith" and a[2]:
        x = a[2][0]
        items = [x] if is_const(x) else x[1] if x[0] in ("tuple", "consts") else ()
        return {y[2] for y in items if is_const(y)} or None
    return None


def modifier(t):
    """A modifier of an evaluated type (or its start), not the base."""
    if t[0] == "slice":
        t = t[1]
    return t[0] == "item" and is_const(t[2]) and isinstance(t[2][2], int) and t[2][2] > 0 and (
        t[1][0] == "call" and t[1][1][0] in ("func", "method") and str(t[1][1][-1]).split(".")[-1] == "eval_type")


def constant_tests(ctx, f, fl, rule):
    """Tests of the start of a type which can never hold."""
    seen = {}
    for s, o in fl.outcomes:
        for a in s.conds:
            w = words(a)
            if w is not None:
                seen[a] = seen.get(a, True) and bool(w)
    for a, ok in sorted(seen.items(), key=show_key):
        ctx.r.check(ok, rule, "%s: %s" % (f.qual, show(a)[-60:]), "the test can never hold", f.qual)


def show_key(x):
    return show(x[0])


def resolution(ctx, g, gl, kindp, namep):
    """Which names are refused by the resolution; whether typedefs are resolved."""
    r = ctx.r
    constant_tests(ctx, g, gl, "resolves")
    found = False
    for s, o in gl.outcomes:
        isin = istype = None
        yes, no = None, set()
        for a, pol in s.conds.items():
            if a[0] == "in" and a[1] == namep:
                if defs_of(gl.strip(a[2]), kindp):
                    isin = pol
                elif defs_of(gl.strip(a[2]), C("types")):
                    istype = pol
            w = words(a)
            if w:
                if pol:
                    yes = w if yes is None else yes & w
                else:
                    no |= w
        if yes is not None and not yes - no:
            continue  # no type starts with both
        aggregate = None
        if yes is not None and yes - no <= {"struct ", "union "}:
            aggregate = True
        elif {"struct ", "union "} <= no:
            aggregate = False
        if o[0] == "return":
            if gl.strip(o[1]) != namep:
                found = True
                r.check(istype is not False, "resolves", "%s: unknown names" % g.qual,
                        "a name which is no typedef is evaluated", g.qual)
                r.check(aggregate is not False, "resolves", "%s: other types" % g.qual,
                        "a type which is no structure nor union is looked for among them", g.qual)
        elif o[0] == "raise" and o[1][:2] == ("exc", "KeyError"):
            r.check(isin is not True, "resolves", "%s: tags" % g.qual, "a tag is refused", g.qual)
            r.check(not (istype is True and aggregate is True), "resolves", "%s: typedefs" % g.qual,
                    "the name of a structure or union is refused", g.qual)
            if istype is True and aggregate is None and not any(
                    mentions_call(a, "eval_type") and words(a) is None for a in s.conds):
                r.bad("resolves", "%s: typedefs" % g.qual, "refused unless it is none of %s" % sorted(no), g.qual)
    return found


def mentions_call(t, name):
    return any(x[0] == "call" and x[1][0] in ("func", "method") and str(x[1][-1]).split(".")[-1] == name
               for x in subterms(t))


def canonical(key, conds, fl, name, kind):
    if key[0] == "call" and key[1][0] == "func" and key[1][1].endswith("._resolve_struct_alias"):
        a = [x for x in key[2] if x != ("param", "self")]
        kw = dict(key[3])
        return (len(a) > 0 and a[0] == C(kind) or kw.get("str_type") == C(kind)) and (
            len(a) > 1 and fl.strip(a[1]) == name or name in kw.values())
    if key == name:
        return any(a[0] == "in" and a[1] == name and pol and defs_of(fl.strip(a[2]), C(kind))
                   for a, pol in conds.items())
    return tag_of(key, fl, name) is not None


def absent(key, reg, conds, fl):
    for a, pol in conds.items():
        if a[0] == "in" and a[1] == key and fl.strip(a[2]) == reg and not pol:
            return True
        if a[0] in ("is", "eq") and NONE in a[1:] and pol:
            for x in a[1:]:
                if x != NONE and read_of(x, reg, fl) == key:
                    return True
        if not pol and read_of(a, reg, fl) == key:
            return True
    return False


def present(key, reg, conds, fl):
    for a, pol in conds.items():
        if a[0] == "in" and a[1] == key and fl.strip(a[2]) == reg and pol:
            return True
        if a[0] in ("is", "eq") and NONE in a[1:] and not pol:
            for x in a[1:]:
                if x != NONE and read_of(x, reg, fl) == key:
                    return True
    return False


def read_of(t, reg, fl):
    t = fl.strip(t)
    if t[0] == "item" and fl.strip(t[1]) == reg:
        return t[2]
    if t[0] == "call" and t[1][0] == "method" and t[1][2] == "get" and fl.strip(t[1][1]) == reg and t[2]:
        return t[2][0]
    return None


def prefixes(conds, fl):
    """The keyword the type was found to start with."""
    some, none = None, set()
    for a, pol in conds.items():
        got = set()
        if a[0] == "eq":
            for x, y in ((a[1], a[2]), (a[2], a[1])):
                if is_const(x) and isinstance(x[2], str):
                    if y[0] == "slice" and y[2] in (NONE, C(0)) and y[3] == C(len(x[2])):
                        got.add(x[2])
                    elif x[2] in ("struct", "union"):
                        got.add(x[2] + " ")
        if a[0] == "call" and a[1][0] == "method" and a[1][2] == "startswith" and a[2]:
            x = a[2][0]
            items = [x] if is_const(x) else x[1] if x[0] in ("tuple", "consts") else ()
            got = {y[2] for y in items if is_const(y)}
        got = {g for g in got if g in ("struct ", "union ", "enum ")}
        if got and pol:
            some = got if some is None else some & got
        elif got:
            none |= got
    some = (some or set()) - none
    return some.pop() if len(some) == 1 else None


def computed(kind, conds, fl):
    """The kind is the keyword of the type followed by s, the keyword being struct or union."""
    kind = fl.strip(kind)
    word = None
    if kind[0] == "bin" and kind[1] == "Add" and kind[3] == C("s"):
        word = kind[2]
    elif kind[0] == "fmt" and len(kind[1]) == 2 and kind[1][1] == C("s"):
        word = kind[1][0]
    if word is None or not any(x[0] == "call" and x[1][0] == "func" and x[1][1].endswith(".eval_type")
                               for x in subterms(word)):
        return False
    for a, pol in conds.items():
        if pol and a[0] == "in" and a[1] == word and a[2][0] in ("consts", "tuple"):
            vals = {x[2] for x in a[2][1] if is_const(x)}
            if vals <= {"struct", "union"}:
                return True
        if pol and a[0] == "eq" and word in a[1:] and (C("struct") in a[1:] or C("union") in a[1:]):
            return True
    return False
