"""Pointers, arrays and functions are applied to the base type in the declared order."""

from ..common import where
from ..flow import C, NONE, is_const, mentions, show, subterms
from ..program import AnalysisBroken
from ..rows import ITEM, Rows, Unknown

TITLE = "derived types are built from the declarators, all of them, in order"
RULES = (
    "path by path in the resolution of a type: a loop takes the declarators of the type "
    "from the first to the last; each gives one step, made of what was built before: "
    "POINTER for '*' and '&' only, once for each; an array takes its sizes from the last "
    "to the first, POINTER for an unknown one (-1) and a multiplication otherwise; a "
    "function makes a function type of the result built so far and of the type of every "
    "argument, in order, and consumes exactly one pointer; only calling conventions are "
    "left out. Consecutive arrays are merged in order, none is lost. The special types for "
    "pointers to characters and void replace the base type and one pointer, nothing else, "
    "and only if pointers are asked for; without pointers nothing is applied."
)
ASSUMPTIONS = ("ctypes types mean what the documentation of ctypes says",)
SELF = ("param", "self")
FN = {"ctypes.CFUNCTYPE", "ctypes.WINFUNCTYPE", "ctypes.PYFUNCTYPE"}


def ctor(t):
    if t[0] == "call" and t[1][0] == "ext":
        if t[1][1] == "ctypes.POINTER":
            return "ptr"
        if t[1][1] in FN:
            return "fn"
    if t[0] == "call" and t[1][0] in ("phi", "ifexp") and t[2] and t[2][-1][0] == "star":
        return "fn"
    if t[0] == "bin" and t[1] == "Mult":
        return "arr"
    return None


class Steps:
    def __init__(self, ctx, f, **kw):
        self.ctx = ctx
        self.f = f
        self.fl = ctx.flow(f, implicit=False, max_states=60000,
                           opaque=lambda x: x.name in ("_get_type", "eval_type", "_get_struct"), **kw)
        self.rows = Rows(self.fl)
        fl = self.fl
        self.vars = set()
        its = [(it, it.loops[-1][0]) for it in fl.iterends if it.loops]
        for it, site in its:
            for name, v in it.value.items():
                if isinstance(v, tuple) and v and (site, name) in fl.phi and ctor(v):
                    if any(x[0] == "phi" for x in subterms(v)):
                        self.vars.add(("phi", site, name))
        grown = True
        while grown:
            grown = False
            for it, site in its:
                for name, v in it.value.items():
                    p = ("phi", site, name)
                    if p not in self.vars and (site, name) in fl.phi and v in self.vars and v != p:
                        self.vars.add(p)
                        grown = True
        self.steps = []  # (phi, value, iteration, own part of the trace)
        for it, site in its:
            for p in self.vars:
                if p[1] == site and p[2] in it.value:
                    self.steps.append((p, it.value[p[2]], it, it.trace[len(it.args[0]):]))
        self.inner = {}
        for p in self.vars:
            init = fl.phi_init.get((p[1], p[2])) if hasattr(fl, "phi_init") else None
            self.inner[p] = init

    def before(self, t, p):
        """The term is, or was built by an inner loop from, p."""
        seen = set()
        while t not in seen:
            if t == p:
                return True
            seen.add(t)
            if t in self.inner and self.inner[t] is not None:
                t = self.inner[t]
            elif t[0] == "phi":
                alts = {x for x in self.fl.phi.get((t[1], t[2]), ()) if x != t}
                return bool(alts) and all(self.contains(x, p) or self.contains(x, t) for x in alts)
        return False

    def contains(self, t, p):
        return any(x == p or x in self.inner and x != t and self.before(x, p) or x == t and self.before(x, p)
                   for x in subterms(t) if x[0] == "phi")


def local(it):
    """Conditions of an iteration about what it treats, not the earlier ones."""
    return it.conds


def isinst(a):
    """(term, names of the classes) of a condition on the class of something."""
    if a[0] == "call" and a[1] == ("builtin", "isinstance") and len(a[2]) == 2:
        k = a[2][1]
        ks = k[1] if k[0] in ("tuple", "consts") else (k,)
        return a[2][0], {str(x[-1]).split(".")[-1] for x in ks}
    if a[0] in ("eq", "is") and len(a) == 3:
        for x, y in ((a[1], a[2]), (a[2], a[1])):
            if x[0] == "call" and x[1] == ("builtin", "type") and x[2] and y[0] == "builtin":
                return x[2][0], {y[1]}
            if x[0] == "typeof" and y[0] == "builtin":
                return x[1], {y[1]}
    return None


def chars(a):
    """Pointer characters a condition compares with: set, or None."""
    if a[0] not in ("eq", "in", "call"):
        return None
    out = set()
    for x in subterms(a):
        if is_const(x) and isinstance(x[2], str) and x[2] in ("*", "&", "*&", "&*", "**"):
            out |= set(x[2])
    return out or None


def size_cond(a, e):
    """The condition compares the size with a constant: (operator, constant)."""
    if not mentions(a, e):
        return None
    cs = [x for x in subterms(a) if is_const(x) and isinstance(x[2], int) and not isinstance(x[2], bool)]
    if a[0] in ("eq", "lt", "le", "gt", "ge", "cmp", "is"):
        return a[0], (cs[0][2] if cs else None), a[1] == e
    return a[0], (cs[0][2] if cs else None), None


def unknown_size(a, w, e):
    """True / False: the size is -1 / is not, None: says nothing known."""
    if not mentions(a, e):
        return None
    if a[0] == "eq" and len(a) == 3 and e in a[1:3]:
        o = a[1] if a[2] == e else a[2]
        if is_const(o) and isinstance(o[2], int):
            return w if o[2] == -1 else "other"
        return None
    if a[0] in ("lt", "le", "gt", "ge") and len(a) == 3 and e in a[1:3]:
        o, first = (a[2], True) if a[1] == e else (a[1], False)
        if is_const(o) and isinstance(o[2], int):
            # the truth of the condition for -1 and for 0 and 1
            def val(x):
                l, r = (x, o[2]) if first else (o[2], x)
                return {"lt": l < r, "le": l <= r, "gt": l > r, "ge": l >= r}[a[0]]
            got = [val(x) is w for x in (-1, 0, 1)]
            if got[0] and not got[1] and not got[2]:
                return True
            if not got[0] and got[1] and got[2]:
                return False
            return "other"
    return None


def run(ctx):
    r = ctx.r
    f = ctx.method(ctx.Backend, "_get_type")
    ptr = f.params[2] if len(f.params) > 2 else None
    st = Steps(ctx, f, key="c32t", args={ptr: C(True)} if ptr else {})
    if not st.steps:
        r.skip("applied", f.qual, "the types are not built by a loop")
        r.skip("order", f.qual, "the types are not built by a loop")
        return
    applied(ctx, st)
    order(ctx, st)
    functions(ctx, st)
    merged(ctx, st)
    base(ctx, st, f)
    if ptr:
        without(ctx, f, ptr)
    ks = {ctor(v) for p, v, it, mine in st.steps}
    if "arr" not in ks and not r.skipped("applied") and not r.skipped("array"):
        r.bad("array", "%s: arrays" % f.qual, "no declarator multiplies what was built before", f.qual)
    for k in ("applied", "pointer", "array", "function", "order", "base"):
        r.floor(k, 1)


def head(st, it):
    """The declarator treated: (term, class names known, truth)."""
    out = {}
    for a, w in it.conds.items():
        got = isinst(a)
        if got:
            out.setdefault(got[0], []).append((got[1], w))
    return out


def applied(ctx, st):
    r = ctx.r
    fl = st.fl
    found = set()
    for p, v, it, mine in st.steps:
        k = ctor(v)
        what = "%s: %s" % (it.func.qual, show(v)[:70])
        here = where(it)
        kinds = head(st, it)
        if v == p:
            # nothing is applied: only what is neither pointer, array nor function
            for t, ks in kinds.items():
                if not (t[0] in ("call", "elem", "item") and not mentions(t, p)):
                    continue
                if any(("list" in n or "tuple" in n) and w for n, w in ks):
                    if not any(x.loops and x.loops[-1][2] is not None and mentions(x.loops[-1][2], t)
                               and x.loops[-1][0] != it.loops[-1][0] for x in fl.iterends):
                        r.bad("applied", what, "an array or a function is left out", here)
            ptrs = [(a, w) for a, w in it.conds.items() if chars(a)]
            if any(w for a, w in ptrs) and not inner_loop(st, it):
                r.bad("applied", what + " (pointer)", "a pointer is left out", here)
            r.ok("applied", what)
            continue
        if k is None:
            if v in st.vars and st.before(v, p):
                r.ok("applied", what)
            elif st.contains(v, p):
                r.skip("applied", what, "an unknown way to derive a type")
            elif not any(x[0] in ("unk", "call") and not x[0] == "ext" for x in subterms(v)):
                r.bad("applied", what, "what was built before is lost", here)
            else:
                r.skip("applied", what, "an unknown value")
            continue
        # made of what was there before
        part = v[2][0] if v[0] == "call" and v[2] else None
        if k == "arr":
            part = next((x for x in v[2:4] if st.before(x, p)), v[2])
        ok = part is not None and st.before(part, p)
        if not ok and part is not None and ctor(part):
            q = part
            n = 0
            while ctor(q) and n < 5 and not st.before(q, p):
                q = q[2][0] if q[0] == "call" else next((x for x in q[2:4] if st.contains(x, p)), q[2])
                n += 1
            if st.before(q, p):
                r.bad(name_of(k), what + " (twice)", "%s is applied several times" % k, here)
                ok = True
        r.check(ok, "applied", what, "what was built before is lost", here)
        if k == "ptr":
            pos = [chars(a) for a, w in it.conds.items() if w and chars(a)]
            neg = [chars(a) for a, w in it.conds.items() if not w and chars(a)]
            size = elem_of(it)
            if isinstance(size, tuple) and any(unknown_size(a, w, size) is not None for a, w in it.conds.items()) \
                    or arrays(it):
                array_step(ctx, st, p, v, it, what, size)
            elif pos:
                for x in pos:
                    found |= x
                r.ok("pointer", what)
            else:
                tells = any(mentions(a, size) for a in it.conds) if size else False
                if neg or not tells and not any("str" in n for ks in kinds.values() for n, w in ks):
                    r.bad("pointer", what, "a pointer is made of what is none%s" % (" (not *)" if neg else ""), here)
                else:
                    r.bad("pointer", what, "a pointer is made of any modifier, calling conventions included", here)
        elif k == "arr":
            array_step(ctx, st, p, v, it, what, elem_of(it))
    if found:
        r.check(found >= {"*", "&"}, "pointer", "%s: pointers and references" % st.f.qual,
                "%s gives no pointer" % " ".join(sorted({"*", "&"} - found)), st.f.qual)


def name_of(k):
    return {"ptr": "pointer", "arr": "array", "fn": "function"}[k]


def inner_loop(st, it):
    return any(len(x.loops) > len(it.loops) and x.loops[len(it.loops) - 1][0] == it.loops[-1][0]
               for x in st.fl.iterends if x.loops)


def elem_of(it):
    """The element treated by the innermost loop."""
    site, node, term = it.loops[-1]
    if term is None:
        return None
    for a in it.conds:
        for x in subterms(a):
            if x[0] == "elem" and x[2][:2] == site[:2]:
                return x
    for v in it.value.values():
        if isinstance(v, tuple) and v:
            for x in subterms(v):
                if x[0] == "elem" and isinstance(x[2], tuple) and x[2][:2] == site[:2]:
                    return x
    return None


def arrays(it):
    """The iteration is one of a loop over the sizes of an array."""
    site, node, term = it.loops[-1]
    if term is None:
        return False
    for a, w in it.conds.items():
        got = isinst(a)
        if got and "list" in got[1] and w and mentions(term, got[0]):
            return True
    return False


def array_step(ctx, st, p, v, it, what, size):
    r = ctx.r
    here = where(it)
    if size is None:
        r.skip("array", what, "the sizes are not taken by a loop")
        return
    tells = [unknown_size(a, w, size) for a, w in it.conds.items()]
    tells = [x for x in tells if x is not None]
    other = [a for a in it.conds if mentions(a, size) and unknown_size(a, True, size) is None]
    want = ctor(v) == "ptr"
    if "other" in tells:
        r.bad("array", what, "not decided by the size being unknown (-1)", here)
    elif tells:
        r.check(all(x is want for x in tells), "array", what,
                "an array of unknown size is multiplied" if not want else "an array of known size is made a pointer", here)
    elif other:
        r.skip("array", what, "decided by %s" % show(other[0])[:60])
    else:
        r.bad("array", what, "the size being unknown (-1) is not looked at", here)
    if not want:
        n = [x for x in v[2:4] if not st.before(x, p)]
        r.check(len(n) == 1 and st.fl.strip(n[0]) == size, "array", what + ": size",
                "the size is %s" % (show(n[0])[:40] if n else "lost"), here)
    # from the last to the first
    term = it.loops[-1][2]
    rev, t = False, st.fl.strip(term)
    while True:
        if t[0] == "call" and t[1] == ("builtin", "reversed"):
            rev = not rev
            t = st.fl.strip(t[2][0])
        elif t[0] == "slice" and t[4] == C(-1) and t[2] == NONE and t[3] == NONE:
            rev = not rev
            t = st.fl.strip(t[1])
        elif t[0] == "call" and t[1][0] == "builtin" and t[1][1] in ("list", "tuple", "iter") and len(t[2]) == 1:
            t = st.fl.strip(t[2][0])
        else:
            break
    if t[0] == "slice" or t[0] == "call" and t[1][0] == "builtin" and t[1][1] in ("sorted", "set"):
        r.bad("array", what + ": sizes", "not the sizes, from the last to the first: %s" % show(term)[:60], here)
    elif t[0] in ("elem", "item", "call", "phi", "param"):
        r.check(rev, "array", what + ": sizes", "the sizes are applied from the first to the last", here)
    else:
        r.skip("array", what + ": sizes", show(term)[:60])


def outer(st):
    """Loops over the declarators: those treating a modifier."""
    out = {}
    for p, v, it, mine in st.steps:
        inits = st.inner.get(p)
        if inits is not None and inits in st.vars:
            continue  # an inner loop
        out.setdefault(p, []).append((v, it, mine))
    return out


def order(ctx, st):
    r = ctx.r
    fl = st.fl
    for p, xs in outer(st).items():
        for v, it, mine in xs:
            site, node, term = it.loops[-1]
            what = "%s: declarators" % it.func.qual
            if term is None:
                pops = [e for e in mine if e.kind == "mutate" and e.how in ("pop", "popleft")
                        and e.loops and e.loops[-1][0] == site]
                if not pops:
                    idx = [e for e in mine if e.kind == "mutate" and e.how == "delitem"]
                    if not idx:
                        r.skip("order", what, "the declarators are taken in an unknown way")
                    continue
                for e in pops:
                    r.check(e.how == "popleft" or e.args and e.args[0] == C(0), "order", what,
                            "taken from the end", where(e))
            else:
                t = fl.strip(term)
                bad = None
                while True:
                    if t[0] == "call" and t[1][0] == "builtin" and t[1][1] in ("reversed", "sorted", "set"):
                        bad = t[1][1]
                        t = fl.strip(t[2][0])
                    elif t[0] == "call" and t[1][0] == "builtin" and t[1][1] in ("list", "tuple", "iter", "enumerate") and t[2]:
                        t = fl.strip(t[2][0])
                    elif t[0] == "slice" and t[4] not in (NONE, C(1)):
                        bad = "in the other order"
                        t = fl.strip(t[1])
                    else:
                        break
                r.check(bad is None, "order", what, "taken %s" % bad, where(it))
        # none is left: no way out of the loop but its end
        for x in fl.iterexits:
            if x.loops and x.loops[-1][0] == p[1] and x.args[1] == ("break",):
                r.bad("order", "%s: all declarators" % x.func.qual, "the remaining declarators are left out", where(x))


def functions(ctx, st):
    r = ctx.r
    fl = st.fl
    listed = []
    n = steps_of_functions(ctx, st, listed)
    if not n and not r.skipped("function") and not any(
            e.kind == "call" and e.target[0] in ("ext", "phi", "ifexp", "name", "local") and "FUNCTYPE" in repr(e.target)
            for e in fl.events) and "FUNCTYPE" in repr(st.f.module.imports):
        r.bad("function", "%s: function types" % st.f.qual, "no function type is ever made", st.f.qual)
    if listed:
        r.check(any(v for v, h in listed), "function", "%s: void" % st.f.qual,
                "void is declared as an argument", listed[0][1])


def steps_of_functions(ctx, st, listed):
    r = ctx.r
    fl = st.fl
    n = 0
    for p, xs in outer(st).items():
        for v, it, mine in xs:
            if ctor(v) != "fn":
                continue
            n += 1
            for c, w in {y for e in (it,) + tuple(mine) for y in e.conds.items()}:
                if c[0] == "call" and c[1] == ("builtin", "isinstance") and not w and len(c[2]) == 2 and (
                        c[2][1] == ("builtin", "tuple")):
                    r.bad("function", "%s: which declarators" % it.func.qual, "made for what is no tuple of parameters", where(it))
            what = "%s: %s" % (it.func.qual, show(v[1])[:40])
            here = where(it)
            a = v[2]
            if not (len(a) >= 1 and st.before(a[0], p)):
                r.bad("function", what + ": result", "the result is %s" % (show(a[0])[:40] if a else "lost"), here)
            rest = a[1:]
            if len(rest) == 1 and rest[0][0] == "star":
                try:
                    b = st.rows.built(rest[0][1])
                except Unknown as x:
                    r.skip("function", what + ": arguments", str(x))
                    continue
                r.check(b.ordered, "function", what + ": order of the arguments", b.why, here)
                if b.source[0] in ("const", "list", "tuple") and (b.source[0] == "const" or not b.source[1]):
                    # chosen for a parameter list which is a lone void
                    tells = [(y, w) for y, w in it.conds.items() if about_void(y)]
                    r.check(tells, "function", what + ": arguments", "none is given", here)
                    listed.append((tells, here))
                    continue
                kept = [x for x, c in b.alts if x is not None]
                voids = [y for y in it.conds if about_void(y)]
                for x, c in b.alts:
                    tests = {y: void_test(y, w) for y, w in c.items() if mentions(y, ITEM)}
                    voids += [y for y, k in tests.items() if k is not None]
                    for y, k in tests.items():
                        if k is None and about_void(y) and evaluates(y):
                            r.skip("function", what + ": arguments", "left out by %s" % show(y)[:60])
                            voids.append(y)
                        elif k is None:
                            r.bad("function", what + ": arguments", "left out unless %s" % show(y)[:60], here)
                    if x is None:
                        if not any(k is False for k in tests.values()):
                            r.bad("function", what + ": arguments", "some arguments are left out", here)
                        continue
                    if any(k is False for k in tests.values()):
                        r.bad("function", what + ": arguments", "only void is taken for an argument", here)
                    typ = resolved(x)
                    if typ is None and x[0] == "call" and str(x[1][-1]).endswith("_get_type"):
                        r.bad("function", what + ": arguments", "resolved without its pointers", here)
                        continue
                    if typ is None:
                        r.skip("function", what + ": arguments", "the type is %s" % show(x)[:60])
                        continue
                    r.check(typ == ("item", ITEM, C(1)), "function", what + ": arguments",
                            "the type is resolved from %s" % show(typ)[:60], here)
                listed.append((voids, here))
                r.check(bool(kept), "function", what + ": arguments", "none is given", here)
            elif not rest and any(w and about_void(y) for y, w in it.conds.items()):
                # chosen for a parameter list which is a lone void
                listed.append(([y for y in it.conds if about_void(y)], here))
            elif not rest:
                r.bad("function", what + ": arguments", "the arguments are left out", here)
            else:
                r.skip("function", what + ": arguments", "given as %s" % show(rest[0])[:60])
            # exactly one pointer is part of the function pointer
            term = it.loops[-1][2]
            if term is not None:
                r.skip("function", what + ": pointer", "the declarators are not consumed")
                continue
            stars = 0
            for e in mine:
                if e.kind != "mutate" or e.how not in ("pop", "popleft", "delitem") or not e.args and e.how == "pop":
                    continue
                pos = [chars(c) for c, w in e.conds.items() if w and chars(c) and mentions(c, fl.strip(e.target))]
                if any("*" in x for x in pos):
                    stars += 1
            if not any(e.kind == "mutate" and e.how in ("pop", "popleft", "delitem") for e in mine):
                r.skip("function", what + ": pointer", "the declarators are not consumed one by one")
                continue
            r.check(stars <= 1, "function", what + ": pointer",
                    "several pointers are consumed by one function", here)
            r.check(stars >= 1, "function", what + ": a pointer",
                    "a function which is no pointer is made one", here)
            name = v[1][1] if v[1][0] == "ext" else ""
            if name == "ctypes.WINFUNCTYPE":
                std = [w for c, w in it.conds.items() if any(is_const(x) and x[2] == "__stdcall" for x in subterms(c))
                       and c[0] == "eq"]
                r.check(std and all(std), "function", what + ": convention", "used whatever the calling convention", here)
            elif name == "ctypes.CFUNCTYPE":
                std = [w for c, w in it.conds.items() if c[0] == "eq" and any(is_const(x) and x[2] == "__stdcall" for x in subterms(c))]
                win = [w for c, w in it.conds.items() if any(is_const(x) and x[2] == "win32" for x in subterms(c))]
                r.check(not (std and all(std) and not (win and not all(win))), "function", what + ": convention",
                        "a __stdcall function is declared __cdecl", here)
    return n


def about_void(a):
    if a[0] == "eq" and any(x[0] == "comp" for x in a[1:]) and evaluates(a):
        return True  # compared as a whole, with a list
    return any(is_const(x) and (x[2] == "void" or x[2] is None) for x in subterms(a)) and evaluates(a)


def evaluates(a):
    """The condition is about a type resolved, other than the one of the declaration."""
    for x in subterms(a):
        if x[0] == "call":
            n = str(x[1][-1]).split(".")[-1]
            if n == "_get_type" or n in ("eval_type", "eval") and not any(y[0] == "param" and y[1] != "self" for z in x[2] for y in subterms(z)):
                return True
            if n in ("eval_type", "eval") and any(y[0] in ("elem", "the") for z in x[2] for y in subterms(z)):
                return True
    return False


def void_test(a, w):
    """True: tells that the argument is not void, False: that it is; None: something else."""
    def of(x):
        return x[0] == "call" and str(x[1][-1]).split(".")[-1] == "_get_type" and mentions(x, ITEM)

    if of(a):
        return w
    if a[0] in ("is", "eq") and len(a) == 3:
        for x, y in ((a[1], a[2]), (a[2], a[1])):
            if of(x) and y == NONE:
                return not w
            if x[0] == "call" and evaluates(x) and not of(x) and mentions(x, ITEM) and whole_void(y):
                return not w
    return None


def whole_void(t):
    from .c28 import is_void
    return is_void(t)


def resolved(t):
    from .c28 import resolved as res
    return res(t)


def offset(t, fl, special):
    """(collection, index of its first element) of a part of a list."""
    n = 0
    while True:
        t = fl.strip(t)
        if t[0] == "call" and t[1][0] == "method" and t[1][2] == "copy" and not t[2]:
            t = t[1][1]
        elif t[0] == "call" and t[1][0] == "builtin" and t[1][1] in ("list", "tuple", "iter", "reversed") and len(t[2]) == 1:
            t = t[2][0]
        elif t[0] == "call" and t[1] == ("ext", "collections.deque") and t[2]:
            t = t[2][0]
        elif t[0] == "slice" and t[4] in (NONE, C(1)) and t[3] == NONE and (
                t[2] == NONE or is_const(t[2]) and isinstance(t[2][2], int) and t[2][2] >= 0):
            n += t[2][2] or 0
            t = t[1]
        elif t[0] == "attr" and t[2] == "declarators":
            n += 1
            t = t[1]
        else:
            return t, n


def is_type(t):
    """The type resolved."""
    return t[0] == "call" and str(t[1][-1]).split(".")[-1] in ("eval_type", "eval")


def merged(ctx, st):
    """Consecutive arrays are put together in order and nothing is lost."""
    r = ctx.r
    fl = st.fl
    loops = {x[1].loops[-1][0] for xs in outer(st).values() for x in xs}
    for it in fl.iterends:
        site, node, term = it.loops[-1]
        if term is None or site in loops:
            continue
        t, n = offset(term, fl, None)
        if not is_type(t):
            continue
        # a loop over the declarators which does not build the type
        e = [x for v in it.value.values() if isinstance(v, tuple) and v for x in subterms(v)
             if x[0] == "elem" and isinstance(x[2], tuple) and x[2][:2] == site[:2]]
        if not e:
            continue
        e = e[0]
        mine = it.trace[len(it.args[0]):]
        what = "%s: merging" % it.func.qual
        pend = None
        for name, v in it.value.items():
            p = ("phi", site, name)
            if (site, name) not in fl.phi or not isinstance(v, tuple):
                continue
            if v[0] == "bin" and v[1] == "Add" and p in v[2:4] and e in v[2:4]:
                r.check(v[2] == p, "merged", what + ": order", "the sizes are put in the other order", where(it))
                ks = [w for a, w in it.conds.items() for got in (isinst(a),) if got and "list" in got[1]]
                r.check(len(ks) >= 2 and all(ks), "merged", what + ": arrays only",
                        "what is no array is merged", where(it))
                pend = p
            elif v == e and any(y == e or y[0] == "bin" for y in fl.phi[(site, name)]):
                # the pending one is replaced: it has to be kept first
                init = fl.phi_init.get((site, name))
                if init is None or not any(
                        y[0] == "bin" and y[1] == "Add" and p in y[2:4] for y in fl.phi[(site, name)]):
                    continue
                kept = [x for x in mine if x.kind == "mutate" and x.how in ("append", "extend") and any(
                    mentions(y, p) or y == p for y in x.args)]
                r.check(kept, "merged", what + ": kept", "a declarator is lost", where(it))
                pend = p
            elif v == p and any(y[0] == "bin" and y[1] == "Add" and p in y[2:4] for y in fl.phi[(site, name)]):
                out = [x for x in mine if x.kind == "mutate" and x.how == "append" and e in x.args]
                if not out:
                    r.bad("merged", what + ": each", "a declarator is left out", where(it))
                pend = p
        if pend is not None:
            r.ok("merged", what)
            # the last one is kept after the loop
            last = [x for x in fl.events if x.kind == "mutate" and x.how == "append" and not any(
                l[0] == site for l in x.loops) and any(y == pend for y in x.args)]
            r.check(last, "merged", what + ": the last one", "the last declarator is lost", where(it))


def base(ctx, st, f):
    """The special types for pointers stand for the base and one pointer."""
    r = ctx.r
    fl = st.fl
    n = 0

    def special(t):
        return any(x[0] == "attr" and x[2] == "_ptr_types_" for x in subterms(t))

    names = {p[2] for p in st.vars}
    seen = set()
    # what is looped over, with the base type chosen on the same path
    for it in fl.iterends:
        site, node, term = it.loops[-1]
        if not names & set(it.value):
            continue
        cls = [v for k, v in it.value.items() if k in names and isinstance(v, tuple) and v and special(v)]
        if any(v[0] not in ("item", "call") for v in cls):
            continue
        starts = []
        if term is not None:
            t, k = offset(term, fl, None)
            if is_type(t):
                starts.append(k)
            else:
                chosen(ctx, st, it, term, f)
        for name, v in it.value.items():
            pi = fl.phi_init.get((site, name))
            if pi is not None and pi[0] == "item" and is_const(pi[2]) and isinstance(pi[2][2], int):
                t, k = offset(pi[1], fl, None)
                if is_type(t) and starts:
                    # the first one is taken before the loop, which starts at the next
                    starts = [starts[0] - 1]
        if not starts:
            continue
        first = min(starts)
        want = 2 if cls else 1
        key = (bool(cls), first)
        if key in seen:
            continue
        seen.add(key)
        n += 1
        what = "%s: %s" % (f.qual, "special pointer" if cls else "base type")
        r.check(first == want, "base", what, "the declarators start at %d instead of %d" % (first, want), where(it))
    # the special types are used for pointers only
    paths = [(s.env, s.conds) for s, o in fl.outcomes if o[0] == "return"]
    paths += [(it.value, it.conds) for it in fl.iterends]
    for env, conds in paths:
        for name, t in env.items():
            if name not in names or not (isinstance(t, tuple) and t and t[0] in ("item", "call") and special(t)):
                continue
            k = t[2] if t[0] == "item" else (t[2][0] if t[2] else NONE)
            what = "%s: pointers to characters and void" % f.qual
            n += 1
            star = [w for a, w in conds.items() if chars(a) and a[0] == "eq" and any(
                x[0] == "item" and x[2] == C(1) and is_type(fl.strip(offset(x[1], fl, None)[0])) for x in subterms(a))]
            if not star:
                star = [w for a, w in conds.items() if chars(a) and any(is_type(x) for x in subterms(a))]
            if not star and any(a[0] in ("eq", "in") and is_one(x, fl) for a in conds for x in subterms(a)):
                r.skip("base", what, "decided in an unknown way")
            else:
                r.check(star and all(star), "base", what, "used for what is no pointer", f.qual)
            b, i = (k[1], k[2]) if k[0] == "item" else (k, None)
            if k[0] == "item":
                r.check(is_type(offset(b, fl, None)[0]) and i == C(0), "base", what + ": its type", "of another type", f.qual)


def chosen(ctx, st, it, term, f):
    """The declarators applied are those of the type but some."""
    try:
        b = st.rows.built(term)
    except Unknown:
        return
    t, k = offset(b.source, st.fl, None)
    if not is_type(t):
        return
    for x, c in b.alts:
        flt = [a for a in c if mentions(a, ITEM)]
        if x == ITEM and flt and len(b.alts) == 1:
            ctx.r.bad("base", "%s: declarators" % f.qual, "left out unless %s%s" % (
                "" if c[flt[0]] else "not ", show(flt[0])[:60]), where(it))


def is_one(x, fl):
    """The first declarator of the type, in some form."""
    if x[0] == "item" and x[2] in (C(0), C(1)) or x[0] == "slice":
        t, n = offset(x[1], fl, None)
        if is_type(t):
            k = x[2][2] if is_const(x[2]) and isinstance(x[2][2], int) else 0
            return n + k == 1
    return False


def without(ctx, f, ptr):
    """Without pointers nothing is applied."""
    r = ctx.r
    fl = ctx.flow(f, key="c32n", implicit=False, max_states=60000, args={ptr: C(False)},
                  opaque=lambda x: x.name in ("_get_type", "eval_type", "_get_struct"))
    for s, o in fl.outcomes:
        if o[0] != "return":
            continue
        v = o[1]
        what = "%s without pointers gives %s" % (f.qual, show(v)[:50])
        bad = v[0] == "phi" or ctor(v) or any(x[0] == "attr" and x[2] == "_ptr_types_" for x in subterms(v))
        r.check(not bad, "base", what, "pointers are applied though not asked for", f.qual)
