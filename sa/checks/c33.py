"""Arrays, casts and the storage of omitted pointers have the type and the shape asked for."""

from ..flow import C, NONE, is_const, mentions, show, subterms

TITLE = "arrays, casts and generated pointers have the type and the shape asked for"
RULES = (
    "the functions are evaluated path by path on symbolic sizes and types: an array of n "
    "dimensions (n up to %d, or a single number) is an instance of the element type multiplied by the "
    "sizes from the last to the first, each once, made of all the values given, or of "
    "none; a cast is ctypes.cast of the object to the type; a type given by name is the one "
    "the headers resolve, with its pointers, a class is used as it is; the public functions "
    "hand over what they are given, each at its place; an omitted pointer is made as a "
    "pointer of as many levels as the parameter has (a c_char_p, c_wchar_p or c_void_p "
    "being one) to new storage of the base type of the parameter." % 4
)
ASSUMPTIONS = ("ctypes types mean what the documentation of ctypes says",
               "the types of the parameters of _get_pointer have one or two pointers (it refuses others)")
SELF = ("param", "self")
DIMS = 4
ONE_LEVEL = {"ctypes.c_char_p", "ctypes.c_wchar_p", "ctypes.c_void_p"}


def opaque(x):
    return x.name in ("_get_type", "eval_type")


def resolved(t):
    """(what is resolved, with pointers) when the term is a call of _get_type."""
    if t[0] == "call" and t[1][0] in ("func", "method", "bound") and str(t[1][-1]).split(".")[-1] == "_get_type":
        a = [x for x in t[2] if x != SELF]
        kw = dict(t[3])
        if "typ" in kw:
            a.insert(0, kw.pop("typ"))
        ptr = a[1] if len(a) > 1 else kw.get("pointers", C(True))
        return (a[0] if a else None), (ptr[2] if is_const(ptr) else "?")
    return None


def element(ctx, fl, s, t, typ):
    """None when the term is the type designated by `typ`, else what is wrong ('?': unknown)."""
    t = fl.strip(t)
    isclass, told = None, False
    for a, v in s.conds.items():
        if a[0] == "call" and a[1] in (("builtin", "isinstance"), ("builtin", "issubclass")) and a[2][0] == typ:
            if a[2][1] == ("builtin", "type"):
                isclass = v
            elif v or a[2][1] in (("builtin", "str"), ("builtin", "tuple")):
                isclass = not v
        elif mentions(a, typ):
            told = True
    got = resolved(t)
    if t == typ:
        return "a type given by name is not resolved" if isclass is False or isclass is None and not told else (
            None if isclass else "?")
    if got is not None:
        what, ptr = got
        if isclass:
            return "a class given is resolved as a name"
        if ptr is False:
            return "its pointers are left out"
        if ptr != True:  # noqa
            return "?"
        items = fl.literal_items(what, s) if what is not None else None
        if items == [typ] or what == typ:
            return None if what != typ or isclass is not None else "?"
        if items is not None and all(is_const(x) or x == typ for x in items):
            return "the type resolved is made of %s" % [show(x) for x in items]
        return "?" if mentions(what or NONE, typ) else "it is %s" % show(t)[:60]
    if t[0] == "call" and t[1][0] == "ext" and not any(x[0] == "phi" for x in subterms(t)):
        return "it is %s" % show(t)[:60]
    if mentions(t, typ):
        return "?"
    return "it is %s" % show(t)[:60]


def product(t, fl):
    """(base, sizes, the outermost first) of a product of types and numbers."""
    sizes = []
    while True:
        t = fl.strip(t)
        if t[0] == "bin" and t[1] == "Mult":
            a, b = fl.strip(t[2]), fl.strip(t[3])
            if b[0] == "param" and b[1].startswith("%size") or is_const(b):
                sizes.append(b)
                t = a
            elif a[0] == "param" and a[1].startswith("%size") or is_const(a):
                sizes.append(a)
                t = b
            else:
                return t, sizes
        else:
            return t, sizes


def arrays(ctx):
    r = ctx.r
    f = ctx.method(ctx.Backend, "_get_array")
    typ, size, vals = [("param", x) for x in f.params[1:4]]
    cases = [("%d dimensions" % n, ("tuple", tuple(("param", "%%size%d" % i) for i in range(n)))) for n in range(1, DIMS + 1)]
    cases.append(("a single number", ("param", "%size0")))
    for name, given in cases:
        fl = ctx.flow(f, key="c33" + name, implicit=False, unroll="all", opaque=opaque, args={f.params[2]: given},
                      max_states=4000)
        want = list(given[1]) if given[0] == "tuple" else [given]
        for s, o in fl.outcomes:
            odd = [a for a, v in s.conds.items() if a[0] == "call" and a[1] == ("builtin", "isinstance")
                   and a[2][0] == given and v != shaped(given, a[2][1])]
            if odd:
                continue
            if o[0] != "return":
                r.skip("shape", name, "raises")
                continue
            t = fl.strip(o[1])
            what = "array of %s" % name
            if t[0] != "call":
                if any(x[0] == "phi" for x in subterms(t)):
                    r.skip("element", what, "made as %s" % show(t)[:60])
                    r.skip("shape", what, "made as %s" % show(t)[:60])
                else:
                    r.bad("shape", what, "it is %s" % show(t)[:80], f.qual)
                continue
            base, sizes = product(t[1], fl)
            if any(x[0] in ("phi", "elem", "call") and resolved(x) is None for x in subterms(base)):
                r.skip("shape", what, "of type %s" % show(base)[:60])
                r.skip("element", what, "of type %s" % show(base)[:60])
            else:
                r.check(sizes == want, "shape", what, "its sizes are %s instead of %s" % (
                    [show(x) for x in sizes], [show(x) for x in want]), f.qual)
                bad = element(ctx, fl, s, base, typ)
                if bad == "?":
                    r.skip("element", what, show(base)[:60])
                else:
                    r.check(bad is None, "element", "%s: its elements" % what, bad or "", f.qual)
            values(r, fl, s, t, vals, what, f)


def shaped(given, cls):
    """Whether the size is an instance of the class(es)."""
    names = [x[1] for x in (cls[1] if cls[0] == "tuple" else (cls,)) if x[0] == "builtin"]
    return any(n in ("tuple",) for n in names) if given[0] == "tuple" else "int" in names


def values(r, fl, s, t, vals, what, f):
    args = tuple(fl.strip(x) for x in t[2])
    some = None
    for a, v in s.conds.items():
        if a == vals:
            some = v
        elif a[0] in ("eq", "is") and vals in a[1:] and NONE in a[1:]:
            if v:
                some = False
            elif some is None:
                some = True
        elif a[0] == "lt" and mentions(a, vals) and a[1] == C(0):
            some = v
    if not args and not t[3]:
        if some is None and any(mentions(a, vals) for a in s.conds):
            r.skip("values", what, "when %s" % [show(a)[:40] for a in s.conds if mentions(a, vals)])
            return
        r.check(some is False, "values", "%s: its values" % what, "the values given are not used", f.qual)
    elif len(args) == 1 and args[0][0] == "star":
        x = fl.strip(args[0][1])
        while x[0] == "call" and x[1] in (("builtin", "tuple"), ("builtin", "list")) and len(x[2]) == 1:
            x = fl.strip(x[2][0])
        if x == vals:
            if some is None and any(mentions(a, vals) for a in s.conds):
                r.skip("values", what, "when %s" % [show(a)[:40] for a in s.conds if mentions(a, vals)])
                return
            r.check(some, "values", "%s: its values" % what, "made of values although none is given", f.qual)
        elif x[0] in ("tuple", "consts") and not x[1]:
            r.check(some is not True, "values", "%s: its values" % what, "the values given are not used", f.qual)
        elif not mentions(x, vals) or x[0] in ("slice", "item"):
            r.bad("values", "%s: its values" % what, "made of %s" % show(x)[:60], f.qual)
        else:
            r.skip("values", what, "made of %s" % show(x)[:60])
    elif len(args) == 1 and args[0] == vals:
        r.bad("values", "%s: its values" % what, "the values are given as a single one", f.qual)
    else:
        r.skip("values", what, "made of %s" % [show(x)[:40] for x in args])


def casts(ctx):
    r = ctx.r
    f = ctx.method(ctx.Backend, "_cast_to")
    fl = ctx.flow(f, key="c33", implicit=False, unroll="all", opaque=opaque)
    obj, typ = [("param", x) for x in f.params[1:3]]
    for s, o in fl.outcomes:
        if o[0] != "return":
            r.skip("cast", f.qual, "raises")
            continue
        t = fl.strip(o[1])
        if not (t[0] == "call" and t[1] == ("ext", "ctypes.cast")):
            if t[0] == "call" and t[1][0] not in ("ext",):
                r.skip("cast", f.qual, "gives %s" % show(t)[:60])
            else:
                r.bad("cast", f.qual, "gives %s" % show(t)[:60], f.qual)
            continue
        got = dict(zip(("obj", "typ"), t[2]))
        got.update(dict(t[3]))
        r.check(fl.strip(got.get("obj", NONE)) == obj, "cast", "object cast", "it is %s" % show(got.get("obj", NONE))[:60], f.qual)
        bad = element(ctx, fl, s, got.get("typ", NONE), typ)
        if bad == "?":
            r.skip("cast", f.qual, "to %s" % show(got.get("typ", NONE))[:60])
        else:
            r.check(bad is None, "cast", "type cast to", bad or "", f.qual)


def public(ctx):
    """build_array and cast_to hand over what they are given."""
    r, p = ctx.r, ctx.p
    for name, to in (("build_array", "_get_array"), ("cast_to", "_cast_to")):
        f = p.functions.get("c_library." + name)
        if f is None:
            r.skip("handed-over", name, "not found")
            continue
        g = ctx.method(ctx.Backend, to)
        lib = ("param", f.params[0])
        fl = ctx.flow(f, key="c33", implicit=False, types=lambda t: ctx.Backend if t == lib else ctx.types(t),
                      opaque=lambda x: x.name in ("_get_array", "_cast_to"))
        for s, o in fl.outcomes:
            if o[0] != "return":
                r.skip("handed-over", f.qual, "raises")
                continue
            t = fl.strip(o[1])
            if not (t[0] == "call" and str(t[1][-1]).split(".")[-1] == to):
                if t == NONE or t[0] in ("param", "const"):
                    r.bad("handed-over", f.qual, "gives %s" % show(t)[:60], f.qual)
                else:
                    r.skip("handed-over", f.qual, "gives %s" % show(t)[:60])
                continue
            a = t[2] if t[1][0] == "method" else t[2][1:]
            got = dict(zip(g.params[1:], a))
            got.update(dict(t[3]))
            for x, y in zip(g.params[1:], f.params[1:]):
                v = fl.strip(got.get(x, NONE))
                if v != ("param", y) and mentions(v, ("param", y)):
                    r.skip("handed-over", "%s of %s" % (y, f.qual), "as %s" % show(v)[:60])
                    continue
                r.check(v == ("param", y), "handed-over", "%s of %s" % (y, f.qual),
                        "%s is given for %s" % (show(v)[:40], x), f.qual)


def levels(t, fl):
    """(levels of pointers, base) of a pointer object."""
    t = fl.strip(t)
    n = 0
    if t[0] == "call" and t[1] == ("ext", "ctypes.pointer") and len(t[2]) == 1:
        n, t = 1, fl.strip(t[2][0])
        inner, more = levels(t, fl)
        if more is not None and inner:
            return n + inner, more
        if t[0] != "call" or t[2] or t[3]:
            return n, None
        t = fl.strip(t[1])
    elif t[0] == "call" and t[1][0] == "call" and not t[2]:
        # POINTER(x)() is a null pointer
        return 0, None
    else:
        return 0, None
    while t[0] == "call" and t[1] == ("ext", "ctypes.POINTER") and len(t[2]) == 1:
        n, t = n + 1, fl.strip(t[2][0])
    return n, t


def pointers(ctx):
    r = ctx.r
    f = ctx.method(ctx.Backend, "_get_pointer")
    if len(f.params) < 3:
        r.skip("storage", f.qual, "of other parameters")
        return
    sig = ("param", f.params[2])
    for stars in (1, 2):
        given = ("tuple", (("param", "%base"),) + (C("*"),) * stars)
        fl = ctx.flow(f, key="c33%d" % stars, implicit=False, unroll="all", opaque=opaque, args={f.params[1]: given},
                      max_states=4000)
        for s, o in fl.outcomes:
            what = "storage for an omitted %s" % ("*" * stars)
            if o[0] != "return":
                if o[0] == "raise" and o[1][1] == "IndexError":
                    r.bad("storage", what, "none can be made", f.qual)
                continue
            n, base = levels(o[1], fl)
            t = fl.strip(o[1])
            if base is None or any(x[0] == "phi" for x in subterms(base)):
                if t[0] == "call" and t[1][0] == "call" and not t[2]:
                    r.bad("storage", what, "it is a null pointer", f.qual)
                elif t[0] == "const" or t[0] == "call" and t[1] == ("ext", "ctypes.byref"):
                    r.bad("storage", what, "it is %s" % show(t)[:60], f.qual)
                else:
                    r.skip("storage", what, "made as %s" % show(t)[:60])
                continue
            for special, alt, m in bases(fl, s, base, n, sig):
                if alt == "?":
                    r.skip("storage", what, "of %s" % show(base)[:60])
                    continue
                name = what + (" to %s" % special if special else "")
                if alt is not None:
                    r.bad("storage", name, alt, f.qual)
                elif special and stars == 1:
                    # no storage of that size is known
                    r.check(m >= 1, "storage", name, "it is no pointer", f.qual)
                else:
                    r.check(m == stars, "storage", name, "it has %d levels of pointers" % m, f.qual)
        r.ok("storage", "levels of %d" % stars)


SPECIAL = {"None": "ctypes.c_void_p", "ctypes.c_char": "ctypes.c_char_p", "ctypes.c_wchar": "ctypes.c_wchar_p"}


def base_of(t, sig):
    got = resolved(t)
    if got is None:
        return None
    return got[0] == sig and got[1] is False


def spelled(t):
    if t == NONE:
        return "None"
    return t[1] if t[0] == "ext" else None


def bases(fl, s, base, n, sig):
    """(special base or None, what is wrong or None, levels) of the storage."""
    is_special = None
    named = None
    for a, v in s.conds.items():
        if a[0] == "in" and resolved(fl.strip(a[1])):
            ks = keys(fl, s, a[2])
            is_special = v if ks is None or len(ks) > 1 else is_special
        if a[0] in ("eq", "is") and any(resolved(fl.strip(x)) for x in a[1:]):
            k = next((spelled(fl.strip(x)) for x in a[1:] if spelled(fl.strip(x))), None)
            if v and k:
                named = k
                is_special = True
    if base[0] == "ext":
        if base[1] in ONE_LEVEL:
            if named is not None:
                ok = SPECIAL.get(named) == base[1]
                yield named, None if ok else "it is made of %s" % base[1], n + 1
            elif is_special is False:
                yield None, "it is made of %s" % base[1], n + 1
            else:
                yield None, "?", n
        else:
            yield None, "it is made of %s whatever the type" % base[1], n
        return
    if base[0] == "item" or base[0] == "call" and base[1][0] == "method" and base[1][2] == "get":
        # taken from a table
        d = table(fl, s, base[1] if base[0] == "item" else base[1][1])
        if d is None:
            yield None, "?", n
            return
        for k, v in d:
            kk, vv = spelled(k), spelled(v)
            if kk is None or vv is None:
                yield None, "?", n
            else:
                yield kk, None if SPECIAL.get(kk) == vv else "it is made of %s" % vv, n + 1
        for k in SPECIAL:
            if k not in [spelled(x) for x, _ in d] and k == "None":
                yield k, "void cannot be made", n
        return
    b = base_of(base, sig)
    if b is None:
        yield None, "?", n
    elif not b:
        yield None, "it is made of %s" % show(base)[:60], n
    elif named == "None" or is_special and named is None:
        yield named, "void cannot be made", n
    else:
        yield None, None, n


def table(fl, s, t):
    t = fl.strip(t)
    if t[0] == "obj":
        return s.heap.get((t, "#items"))
    return None


def keys(fl, s, t):
    d = table(fl, s, t)
    return [k for k, v in d] if d is not None else None


def run(ctx):
    arrays(ctx)
    casts(ctx)
    public(ctx)
    pointers(ctx)
    for k, n in (("shape", 3), ("element", 3), ("values", 3), ("cast", 2), ("handed-over", 4), ("storage", 2)):
        ctx.r.floor(k, n)
