"""What a call through a proxy passes to the native function."""

import ast

from ..common import where
from ..flow import C, NONE, is_const, mentions, show, subterms
from ..norm import Norm
from ..program import AnalysisBroken

TITLE = "a call passes what was given, each at its place, and fresh objects for what was omitted"
RULES = (
    "path-sensitive value flow of the call of a function wrapper: the native function gets "
    "the list of arguments and nothing else; positional arguments are stored at their "
    "position, keyword arguments at the index of the parameter they name (unknown names "
    "raise TypeError), None as a null pointer of the type of that parameter (TypeError "
    "if it is no pointer); slots still empty, and only those, get an object built by the "
    "call itself for the type of that parameter and only their indices are recorded; all "
    "this before the native call, whose result, arguments and record make the result."
)
ASSUMPTIONS = ("the native function is called with as many arguments as the caller gives (variadic functions)",)
OPAQUE = ("_get_pointer", "_get_type", "eval_type", "pretty_signature", "eval")
L, A, KW, I, J, S, K, V, AA = (("%s" % x,) for x in ("L", "A", "KW", "i", "j", "s", "k", "v", "a"))


def linear(t):
    """{atom: coefficient} of an integer expression."""
    if is_const(t) and isinstance(t[2], int):
        return {1: t[2]}
    if t[0] == "bin" and t[1] in ("Add", "Sub"):
        a, b = linear(t[2]), linear(t[3])
        out = dict(a)
        for k, v in b.items():
            out[k] = out.get(k, 0) + (v if t[1] == "Add" else -v)
        return {k: v for k, v in out.items() if v}
    return {t: 1}


class Call:
    def __init__(self, ctx):
        self.ctx = ctx
        self.f = f = ctx.method(ctx.CFunction, "__call__")
        self.fl = fl = ctx.flow(f, key="c21", implicit=False, max_states=60000,
                                opaque=lambda x: x.name in OPAQUE)
        init = ctx.method(ctx.CFunction, "__init__")
        il = ctx.flow(init, key="c21", implicit=False, opaque=lambda x: True)
        self.native = [k[1][1:] for s, o in il.outcomes for k, v in s.heap.items()
                       if k[0] == ("param", "self") and k[1].startswith(".") and len(init.params) > 2
                       and v == ("param", init.params[2])]
        if not self.native:
            raise AnalysisBroken("the wrapper does not keep the native function")
        a = f.node.args
        if not a.vararg or not a.kwarg:
            raise AnalysisBroken("CFunction.__call__ does not take *args, **kwargs")
        self.va, self.kw = ("param", a.vararg.arg), ("param", a.kwarg.arg)
        self.calls = [e for e in fl.events if e.kind == "call" and e.target[0] == "attr"
                      and e.target[1] == ("param", "self") and e.target[2] in self.native
                      or e.kind == "call" and e.target[0] == "method" and e.target[1] == ("param", "self")
                      and e.target[2] in self.native]
        if not self.calls:
            raise AnalysisBroken("the native function is not called")
        self.family = set()
        for e in self.calls:
            for x in e.args:
                self.grow(x[1] if x[0] == "star" else x)
        # the same list under other names (grown in place inside of a helper)
        for e in fl.events:
            if e.kind == "mutate" and self.reaches(e.target):
                self.grow(e.target)
        self.norm = Norm(fl, self.special)

    def grow(self, t):
        """Terms standing for the list of arguments at some point."""
        todo = [t]
        fl = self.fl
        while todo:
            t = todo.pop()
            for x in (t, fl.strip(t)):
                if x in self.family:
                    continue
                if x[0] == "phi":
                    self.family.add(x)
                    todo += list(fl.phi.get((x[1], x[2]), ()))
                elif x[0] in ("obj", "comp") or x[0] == "call":
                    self.family.add(x)
                elif x[0] == "bin" and x[1] in ("Add", "Mult"):
                    self.family.add(x)
                    if x[1] == "Add":
                        todo.append(x[2])
                        if fl.strip(x[2])[0] not in ("phi",) and fl.strip(x[3])[0] == "bin" and False:
                            todo.append(x[3])
                elif x[0] == "ver":
                    todo.append(x[1])

    def reaches(self, t, seen=None):
        seen = set() if seen is None else seen
        if t in seen:
            return False
        seen.add(t)
        fl = self.fl
        for x in (t, fl.strip(t)):
            if x in self.family:
                return True
            if x[0] == "phi" and any(self.reaches(y, seen) for y in fl.phi.get((x[1], x[2]), ())):
                return True
            if x[0] == "bin" and x[1] == "Add" and self.reaches(x[2], seen):
                return True
        return False

    def special(self, t):
        if t in self.family:
            return L
        if t == self.va:
            return A
        if t == self.kw:
            return KW
        if t[0] in ("elem", "idx") and len(t) > 1:
            b = t[1]
            while b[0] == "call" and b[1][0] == "builtin" and b[1][1] in ("list", "tuple", "enumerate", "iter") and b[2]:
                b = b[2][0]
            if b[0] == "call" and b[1][0] == "method" and b[1][2] in ("keys", "copy"):
                b = b[1][1]
            if b == A:
                return AA if t[0] == "elem" else I
            if b == L:
                return S if t[0] == "elem" else J
            if b == KW:
                return K
        if t[0] in ("key", "val") and t[1] == KW:
            return K if t[0] == "key" else V
        if t[0] == "item" and t[1] == KW and t[2] == K:
            return V
        if t[0] == "item" and t[1] == A and t[2] == I:
            return AA
        if t[0] == "item" and t[1] == L and t[2] == J:
            return S
        if t[0] == "call" and t[1][0] == "method" and t[1][1] == KW and t[1][2] == "get" and t[2] and t[2][0] == K:
            return V
        return None


def is_null(t):
    return t[0] == "attr" and t[2] == "Null"


def ptype(t):
    """The term is the type of parameter j: self.sig[1][j][1] (the declared type)."""
    return t[0] == "item" and t[2] == C(1) and t[1][0] == "item" and t[1][2] == J and (
        t[1][1] == ("item", ("attr", ("param", "self"), "sig"), C(1)))


def pol(cs, *atoms):
    for a in atoms:
        if a in cs:
            return cs[a]
    return None


def none_test(cs, x):
    return pol(cs, ("is", x, NONE), ("eq", x, NONE), ("eq", NONE, x))


def null_test(cs, x):
    for a, v in cs.items():
        if a[0] in ("is", "eq") and x in a[1:] and any(is_null(y) for y in a[1:]):
            return v
    return None


def known_index(cs, k):
    for a, v in cs.items():
        if a[0] == "in" and a[1] == k and a[2][0] == "attr" and a[2][2] == "arg_inds" and v:
            return True
        if a[0] == "is" and a[2] == NONE and not v and mentions(a[1], ("attr", ("param", "self"), "arg_inds")):
            return True
    return False


def refused(c, e):
    """Unknown keywords raise TypeError in another way than a test before the write."""
    for t in e.tries or ():
        n = t if isinstance(t, ast.Try) else getattr(t, "node", None)
        if isinstance(t, tuple):
            n = next((x for x in t if isinstance(x, ast.Try)), None)
        if n is not None:
            for h in n.handlers:
                if any(isinstance(x, ast.Raise) and x.exc is not None and "TypeError" in ast.dump(x.exc)
                       for x in ast.walk(h)):
                    return True
    # a failing lookup, caught around it
    for x in ast.walk(c.f.node):
        if isinstance(x, ast.Try) and any("arg_inds" in ast.dump(y) for y in x.body) and any(
                isinstance(y, ast.Raise) and y.exc is not None and "TypeError" in ast.dump(y.exc)
                for h in x.handlers for y in ast.walk(h)):
            return True
    # all names checked beforehand
    def looked_up(lits, value):
        return any(x[0] == "in" and x[2][0] == "attr" and x[2][2] == "arg_inds" and v is value for x, v in lits)
    for a, v in e.conds.items():
        if a[0] == "forall" and mentions(a[1], c.kw):
            if v and a[3] and all(looked_up(d, True) for d in a[3] if isinstance(d, frozenset)):
                return True
            continue
        if a[0] == "comp" and mentions(a[3], c.kw):
            if not v and looked_up([y for y in a[4] if isinstance(y, tuple) and len(y) == 2], False):
                return True
            continue
        if a[0] == "in" and c.norm(a[1]) == K or any(
                x[0] == "item" and x[1][0] == "attr" and x[1][2] == "arg_inds" for x in subterms(a)):
            continue  # about this very name, or its index
        if mentions(a, c.kw) and any(x[0] == "attr" and x[2] == "arg_inds" for x in subterms(a)):
            return True
    return False


def run(ctx):
    r = ctx.r
    c = Call(ctx)
    fl, n, f = c.fl, c.norm, c.f

    for e in c.calls:
        r.check(len(e.args) == 1 and e.args[0][0] == "star" and not e.kwargs, "passed-list",
                "%s calls the native function" % f.qual, "it gets %s" % [show(x)[:60] for x in e.args], where(e))
    initial(ctx, c)
    got = set()
    for e in fl.events:
        if e.kind != "mutate" or fl.strip(e.target) not in c.family and e.target not in c.family:
            continue
        if e.how != "setitem":
            if e.how in ("append", "extend", "augassign", "insert") and all(empty(c, x) for x in e.args or ()):
                continue
            r.bad("writes", "%s: %s" % (f.qual, e.how), "the arguments are changed by %s(%s)" % (
                e.how, ", ".join(show(x)[:60] for x in e.args or ())), where(e))
            continue
        i, v = n(e.args[0]), n(e.args[1])
        for cs in n.conds(e, e.args[0], e.args[1]):
            write(ctx, c, e, i, v, cs, got)
    if c.positional:
        got.add("positional")
        got.add("positional-null")
    for k, m in (("positional", "positional arguments are not passed"),
                 ("positional-null", "None given by position is not made a null pointer"),
                 ("keyword", "keyword arguments are not passed"),
                 ("keyword-null", "None given by keyword is not made a null pointer"),
                 ("missing", "omitted pointers are not generated"),
                 ("null", "null pointers are not built")):
        r.check(k in got, "handled", "%s: %s" % (f.qual, k), m, f.qual)
    index_map(ctx)
    iterations(ctx, c)
    order(ctx, c)
    result(ctx, c, fl)
    # whatever fails
    result(ctx, c, ctx.flow(f, key="c21c", implicit=True, max_states=60000, opaque=lambda x: x.name in OPAQUE))
    for k in ("passed-list", "writes", "handled", "result"):
        r.floor(k, 1)


def index_map(ctx):
    """The index of each parameter, by name."""
    r = ctx.r
    f = ctx.method(ctx.CFunction, "__init__")
    fl = ctx.flow(f, key="c21i", implicit=False, opaque=lambda x: x.name in ("_get_type", "eval_type", "eval", "_init_function"))
    me = ("attr", ("param", "self"), "arg_inds")
    made = [e for e in fl.events if e.kind == "setattr" and e.args[0] == "arg_inds" and e.target == ("param", "self")]
    what = "%s: indices of the parameters" % f.qual
    if not made:
        cls = ctx.CFunction
        if not cls.find("arg_inds"):
            r.bad("index-map", what, "not recorded", f.qual)
        return
    for e in made:
        v = fl.strip(e.value)
        if v[0] == "call" and v[1] == ("builtin", "dict") and v[2]:
            v = fl.strip(v[2][0])
        if v[0] == "comp" and v[2][0] == "tuple" and len(v[2][1]) == 2:
            pair(r, what, fl.strip(v[2][1][0]), fl.strip(v[2][1][1]), where(e))
            r.check(not v[4], "index-map", what + ": all", "some are left out", where(e))
        elif v[0] == "obj" and v[1] == "dict":
            ws = [x for x in fl.events if x.kind == "mutate" and x.how == "setitem" and (
                fl.strip(x.target) in (v, me))]
            for x in ws:
                pair(r, what, fl.strip(x.args[0]), fl.strip(x.args[1]), where(x))
            if not ws:
                r.skip("index-map", what, "not made here")
        else:
            r.skip("index-map", what, "made as %s" % show(v)[:60])


def pair(r, what, k, i, loc):
    if k[0] == "item" and k[2] == C(0) and k[1][0] == "elem":
        src = k[1][1]
        if i[0] == "idx":
            r.check(i[1] == src, "index-map", what, "indices of %s" % show(i[1])[:60], loc)
        elif is_const(i) or i[0] in ("item", "elem") or i[0] == "bin" and any(x[0] == "idx" for x in i[2:]):
            r.bad("index-map", what, "%s is recorded" % show(i)[:60], loc)
        else:
            r.skip("index-map", what, "%s is recorded" % show(i)[:60])
    elif k[0] == "item" and is_const(k[2]) and k[1][0] == "elem":
        r.bad("index-map", what, "recorded under part %s of the parameters" % show(k[2]), loc)
    else:
        r.skip("index-map", what, "recorded under %s" % show(k)[:60])


def empty(c, x):
    """A list of None (or None itself)."""
    x = c.fl.strip(x)
    if x == NONE:
        return True
    if x[0] == "bin" and x[1] == "Mult":
        return empty(c, x[2]) or empty(c, x[3])
    if x[0] == "obj" and x[1] == "list":
        for e in c.fl.events:
            it = (e.state or {}).get((x, "#items"))
            if it is not None:
                return bool(it) and all(y == NONE for y in it)
    if x[0] in ("list", "tuple"):
        return all(y == NONE for y in x[1])
    if x[0] == "comp":
        return x[2] == NONE
    if x[0] == "call" and x[1] == ("ext", "itertools.repeat"):
        return x[2][0] == NONE
    return False


def initial(ctx, c):
    """What the list of arguments is made of before anything is stored in it."""
    r, fl, n = ctx.r, c.fl, c.norm
    c.positional = False
    for t in sorted(c.family, key=show):
        x = fl.strip(t)
        if x[0] in ("phi",):
            continue
        what = "%s: list of arguments (%s)" % (c.f.qual, x[0])
        if x[0] == "bin" and x[1] == "Add":
            grown = n.memo.get(x)
            ok = empty(c, x[3]) or piece(c, x[3])
            r.check(ok, "writes", what, "%s is added to the arguments" % show(x[3])[:60], c.f.qual)
            if fl.strip(x[2]) not in c.family and not empty(c, x[2]):
                r.check(piece(c, x[2]), "writes", what, "starts as %s" % show(x[2])[:60], c.f.qual)
            continue
        if empty(c, x):
            if x[0] == "bin":
                cnt = x[3] if empty(c, x[2]) else x[2]
                has_args = mentions(cnt, ("call", ("builtin", "len"), (c.va,), ()))
                has_sig = any(y[0] == "attr" and y[1] == ("param", "self") for y in subterms(cnt))
                r.check(has_args, "size", what, "not as long as the arguments given", c.f.qual)
                r.check(has_sig, "size", what + ": parameters", "not as long as the parameters required", c.f.qual)
                if cnt[0] == "call" and cnt[1][0] == "builtin":
                    r.check(cnt[1][1] == "max", "size", what + ": both", "its length is %s" % show(cnt)[:60], c.f.qual)
            continue
        if x[0] == "obj" and x[1] == "list":
            continue
        r.check(piece(c, x), "writes", what, "starts as %s" % show(x)[:60], c.f.qual)


def piece(c, x):
    """The positional arguments, None replaced by the null marker."""
    x = c.fl.strip(x)
    if x[0] == "call" and x[1] in (("builtin", "list"), ("builtin", "tuple")) and x[2]:
        x = c.fl.strip(x[2][0])
    if x[0] != "comp" or c.norm(x[3]) not in (A, ("call", ("builtin", "iter"), (A,), ())):
        return False
    elts = x[2][1] if x[2][0] == "alts" else (x[2],)
    hows = x[6] if len(x) > 6 else (frozenset([frozenset()]),)
    if len(x) > 4 and (any(x[4][1]) if isinstance(x[4], tuple) else x[4]):
        return False
    for v, alts in zip(elts, hows):
        v = c.norm(v)
        for k in alts:
            d = {c.norm(a): p for a, p in k}
            if not (v == AA and none_test(d, AA) is False or is_null(v) and none_test(d, AA) is True):
                return False
    c.positional = True
    return len(elts) > 1


def write(ctx, c, e, i, v, cs, got):
    r, f = ctx.r, c.f
    what = "%s: [%s] = %s" % (f.qual, show(i)[:40], show(v)[:50])
    loc = where(e)
    if v == AA or v == V or is_null(v):
        src = v
        if is_null(v):
            src = AA if none_test(cs, AA) is True else V if none_test(cs, V) is True else None
            if src is None:
                if i == J and none_test(cs, S) is not None or i == J:
                    r.bad("writes", what, "an omitted argument becomes a null pointer", loc)
                else:
                    r.bad("writes", what, "a null pointer replaces a value given", loc)
                return
        else:
            t = none_test(cs, src)
            r.check(t is False, "null", what, "None is passed on as if the argument was omitted", loc)
        if src == AA:
            r.check(i == I, "writes", what, "a positional argument is stored elsewhere", loc)
            got.add("positional-null" if is_null(v) else "positional")
        else:
            ok = i == ("item", ("attr", ("param", "self"), "arg_inds"), K) or (
                i[0] == "call" and i[1][0] == "method" and i[1][2] == "get" and i[2][:1] == (K,)
                and i[1][1] == ("attr", ("param", "self"), "arg_inds"))
            r.check(ok, "writes", what, "a keyword argument is stored at %s" % show(i)[:60], loc)
            r.check(known_index(cs, K) or refused(c, e), "unknown-keyword", what,
                    "the name of the argument is not checked", loc)
            room(ctx, c, e, i, cs, what)
            got.add("keyword-null" if is_null(v) else "keyword")
        return
    call = v[0] == "call" and v[1]
    if call and call[0] in ("func", "method") and str(call[-1]).split(".")[-1] == "_get_pointer":
        r.check(i == J, "writes", what, "the object generated is stored elsewhere", loc)
        tys = [x for x in v[2] if ptype(x)]
        given = [x for x in v[2] if x not in (("attr", ("param", "self"), "lib"), ("param", "self"))]
        g = ctx.method(ctx.Backend, "_get_pointer")
        if [x for x in g.params if x != "self"] == ["arg_type", "sig"] and len(given) == 2 and not v[3]:
            r.check(mentions_type(given[0]) and ptype(given[1]), "generated-type", what + ": both",
                    "the type and its evaluation are exchanged", loc)
        r.check(len(tys) >= 1 and all(
            ptype(x) or mentions_type(x) or x == ("attr", ("param", "self"), "lib") for x in v[2]),
            "generated-type", what, "it is built for %s" % [show(x)[:60] for x in v[2][1:]], loc)
        r.check(null_test(cs, S) is not True, "null", what, "None given by the caller gets a generated object", loc)
        r.check(none_test(cs, S) is True or null_test(cs, S) is False and has_filter(cs), "given-untouched", what,
                "an argument given by the caller is replaced", loc)
        got.add("missing")
        return
    if call and call[0] == "call":
        g = call[1]
        if g[0] in ("func", "method") and str(g[-1]).split(".")[-1] == "_get_type":
            r.check(i == J, "writes", what, "the null pointer is stored elsewhere", loc)
            plain = not any(x == C(False) for x in tuple(call[2]) + tuple(y for _, y in call[3]))
            r.check(any(ptype(x) or mentions_type(x) for x in call[2]) and not v[2] and plain, "null-type", what,
                    "the null pointer is %s" % show(v)[:80], loc)
            r.check(null_test(cs, S) is True, "given-untouched", what, "it replaces an argument which is not None", loc)
            tested = any(least(a, p) >= 2 for a, p in cs.items() if any(mentions_type(x) for x in subterms(a)))
            r.check(tested, "null-pointer-only", what, "None is accepted for parameters which are no pointers", loc)
            if none_test(cs, S) is not True:
                got.add("null")
            return
    r.bad("writes", what, "%s is passed" % show(v)[:80], loc)


def least(a, v):
    """The least length of a type the condition allows (2 when it is not about the length)."""
    if mentions_type(a) or a[0] == "call" and a[1] == ("builtin", "len"):
        return 1 if v else 0
    if a[0] != "lt":
        return 2
    x, y = a[1], a[2]
    if x[0] == "call" and x[1] == ("builtin", "len") and is_const(y) and isinstance(y[2], int):
        return 0 if v else y[2]
    if y[0] == "call" and y[1] == ("builtin", "len") and is_const(x) and isinstance(x[2], int):
        return x[2] + 1 if v else 0
    return 2


def most(a, v):
    """The greatest length of a type the condition allows (99: no bound; None: not about it)."""
    if a[0] != "lt":
        return None
    x, y = a[1], a[2]
    def length(t):
        return t[0] == "call" and t[1] == ("builtin", "len") and any(mentions_type(z) for z in subterms(t))
    if length(x) and is_const(y) and isinstance(y[2], int):
        return y[2] - 1 if v else 99
    if length(y) and is_const(x) and isinstance(x[2], int):
        return 99 if v else x[2]
    return None


def leaves(node):
    """The loop is left before its end."""
    todo = list(getattr(node, "body", ()))
    while todo:
        x = todo.pop()
        if isinstance(x, (ast.Break, ast.Return)):
            return True
        if isinstance(x, (ast.For, ast.While)):
            todo += x.orelse
            continue
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo += list(ast.iter_child_nodes(x))
    return False


def has_filter(cs):
    """The slot is one of None and the marker of null pointers."""
    return any(a[0] == "in" and a[1] == S and v and a[2][0] in ("tuple", "list", "obj") and (
        a[2][0] == "obj" or len(a[2][1]) == 2 and NONE in a[2][1] and any(is_null(x) for x in a[2][1]))
        for a, v in cs.items())


def mentions_type(x):
    """eval_type of the type of parameter j."""
    return isinstance(x, tuple) and x and x[0] == "call" and x[1][0] in ("func", "method") and str(
        x[1][-1]).split(".")[-1] in ("eval_type", "eval") and any(ptype(y) for y in x[2])


def room(ctx, c, e, i, cs, what):
    """The list is long enough for the keyword argument."""
    r, n = ctx.r, c.norm
    ln = ("call", ("builtin", "len"), (L,), ())
    if cs.get(("lt", i, ln)) is True:
        r.ok("room", what)
        return
    def enough(x):
        x = c.fl.strip(x)
        if x[0] == "bin" and x[1] == "Mult":
            cnt = x[3] if empty(c, x[2]) else x[2]
            lin = linear(n(cnt))
            return lin.get(i) == 1 and lin.get(ln) == -1 and lin.get(1, 0) == 1 or (
                cnt[0] == "call" and cnt[1] == ("builtin", "max"))
        if x[0] == "comp" or x[0] == "call":
            return mentions(n(x), i)
        return False
    t = c.fl.strip(e.target)
    if t[0] == "bin" and t[1] == "Add":
        r.check(enough(t[3]), "room", what, "the list is not stretched up to the argument", where(e))
        return
    for x in reversed(e.trace or ()):
        if x.kind == "mutate" and x.how in ("extend", "augassign", "append") and (
                c.fl.strip(x.target) in c.family):
            if x.how == "append":
                r.ok("room", what)
            else:
                r.check(enough(x.args[0]), "room", what, "the list is not stretched up to the argument", where(e))
            return
    # grown in a loop, or as long as the signature from the start
    for x in c.fl.events:
        if x.kind == "mutate" and x.how == "append" and x.loops and c.fl.strip(x.target) in c.family:
            r.ok("room", what)
            return
    full = any(y[0] == "bin" and not any(
        z[0] == "item" and z[1][0] == "attr" and z[1][2] == "arg_inds" for z in subterms(y)) and any(
        z == ("item", ("attr", ("param", "self"), "sig"), C(1)) or z[0] == "attr" and z[2] in ("arg_types", "arg_inds")
        for z in subterms(y)) for y in c.family)
    r.check(full, "room", what, "the list may be shorter than the index of the argument", where(e))


def iterations(ctx, c):
    """Each argument is stored, each generated one recorded."""
    r, fl, n = ctx.r, c.fl, c.norm
    rec = records(c)

    def writes(it):
        return [x for x in it.trace if x.kind == "mutate" and x.how == "setitem" and (
            fl.strip(x.target) in c.family or x.target in c.family)
            and any(y[0] == it.loops[-1][0] for y in x.loops or ())]
    storing = {it.loops[-1][0] for it in fl.iterends if writes(it)}
    for it in fl.iterends:
        if not any(not (none_test(cs, S) and null_test(cs, S)) for cs in n.conds(it, strict=True)):
            continue  # never both, never neither when the loop is over those only
        site = it.loops[-1][0]
        mine = [x for x in it.trace if x.loops and any(y[0] == site for y in x.loops)]
        wr = writes(it)
        made = [x for x in wr if "_get_pointer" in repr(x.args[1])[:200]]
        noted = [x for x in mine if x.kind == "mutate" and fl.strip(x.target) in rec
                 and x.how in ("append", "add", "extend")]
        what = "%s: loop over %s" % (c.f.qual, show(n(it.loops[-1][2]))[:40] if it.loops[-1][2] else "?")
        if site in storing and isinstance(it.loops[-1][1], ast.For):
            r.check(not leaves(it.loops[-1][1]), "all-stored", what + ": to the end",
                    "the loop may stop before the last argument", where(it))
        src = it.loops[-1][2]
        over = n(src) if src else None
        if site in storing and over is not None and rng(over, (A, KW)):
            r.check(len(wr) >= 1, "all-stored", what, "an argument is skipped", where(it))
        if made:
            same = [x for x in noted if n(x.args[0]) == n(made[-1].args[0])]
            r.check(len(same) == 1, "recorded", what, "the generated object is not recorded (once) by its index", where(it))
        else:
            r.check(not noted, "recorded", what, "an argument which was not generated is recorded", where(it))


def rng(t, srcs):
    while t[0] == "call" and (t[1][0] == "builtin" and t[1][1] in ("range", "len", "enumerate", "list", "tuple", "iter")
                              and t[2] or t[1][0] == "method" and t[1][2] in ("items", "keys")):
        t = t[2][0] if t[1][0] == "builtin" else t[1][1]
    return t in srcs


def records(c):
    """Lists handed to the result as the record of the generated arguments."""
    out = set()
    for s, o in c.fl.outcomes:
        if o[0] == "return":
            b = bound(c, o[1])
            if b:
                x = c.fl.strip(b["guessed"]) if "guessed" in b else None
                if x is not None:
                    out.add(x)
                    if x[0] == "call" and x[2]:
                        out.add(c.fl.strip(x[2][0]))
    return out


def bound(c, t):
    t = c.fl.strip(t)
    if t[0] != "new" or not t[1].endswith(c.ctx.CallResult.name):
        return None
    init = c.ctx.method(c.ctx.CallResult, "__init__")
    names = [x for x in init.params if x != "self"]
    ev = [e for e in c.fl.events if e.kind == "call" and e.target == ("cls", c.ctx.CallResult.qual)
          and c.fl.strip(e.value) == t]
    if not ev:
        return None
    d = dict(zip(names, ev[-1].args))
    d.update({k: v for k, v in ev[-1].kwargs or ()})
    roles = ("lib", "rval", "args", "sig", "guessed")
    return {rl: d.get(nm) for rl, nm in zip(roles, names) if d.get(nm) is not None}


def order(ctx, c):
    """Nothing is decided, stored or refused after the native call."""
    r, fl, n = ctx.r, c.fl, c.norm
    for e in fl.events:
        late = any(x.kind == "call" and x.target in {y.target for y in c.calls} for x in e.trace or ())
        if e.kind == "mutate" and fl.strip(e.target) in c.family:
            r.check(not late, "before-call", "%s: %s" % (c.f.qual, e.how), "the arguments change after the call", where(e))
        if e.kind == "raise" and e.how == "raise":
            r.check(not late, "before-call", "%s: %s" % (c.f.qual, show(e.value)[:30]),
                    "refused after the native call was made", where(e))
            v = fl.strip(e.value) if e.value else None
            nm = v[1] if v and v[0] == "call" else None
            r.check(nm is None or nm[-1] in ("TypeError", "AssertionError"), "refused", "%s: raise" % c.f.qual,
                    "raises %s" % show(v)[:40] if v else "", where(e))
    for e in fl.events:
        if e.kind == "raise" and e.how == "raise" and e.value and "TypeError" in show(e.value):
            for cs in n.conds(e, *e.conds):
                if null_test(cs, S) is True:
                    hi = [most(a, p) for a, p in cs.items() if mentions(a, ("builtin", "len"))]
                    hi = [x for x in hi if x is not None]
                    r.check(not hi or min(hi) <= 1, "refused", "%s: None for pointers" % c.f.qual,
                            "None is refused for types of %s parts" % (min(hi) if hi else ""), where(e))
    ok = [e for e in fl.events if e.kind == "raise" and e.value and "TypeError" in show(e.value)]
    for what, test in (("unknown keyword", lambda e: any(mentions(a, c.kw) for a in e.conds) and not mentions_gen(e)
                        or any(mentions(x, c.kw) for x in subterms(e.value))),
                       ("None for a value", lambda e: any(
                           null_test(cs, S) is True for cs in n.conds(e, *e.conds)))):
        r.check(any(test(e) for e in ok) or "unknown" in what and any(refused(c, e) for e in fl.events[:1]),
                "refused", "%s: %s" % (c.f.qual, what), "no TypeError for it", c.f.qual)
    # omitted arguments which cannot be generated
    g = ctx.flow(c.f, key="c21b", implicit=False, max_states=60000,
                 opaque=lambda x: x.name in OPAQUE and x.name != "_get_pointer")
    n_out = 0
    for s, o in g.outcomes:
        if o[0] != "raise":
            continue
        n_out += 1
        impossible = o[1][:2] == ("exc", "AssertionError") and any(
            not v and mentions(a, ("builtin", "AssertionError")) and not exchanged(a) for a, v in s.conds.items())
        r.check(o[1][:2] != ("exc", "AssertionError") or impossible, "refused",
                "%s: omitted argument which cannot be generated" % c.f.qual, "leaves as an AssertionError", c.f.qual)
    r.ok("refused", "%s: %d refusals" % (c.f.qual, n_out))


def exchanged(a):
    """The exception itself is compared with a class."""
    return a[0] in ("is", "eq") and any(
        x[0] == "item" and x[2] != C(0) and x[1][0] == "call" and x[1][1] == ("ext", "sys.exc_info") for x in a[1:])


def mentions_gen(e):
    return any(is_null(x) for a in e.conds for x in subterms(a))


def result(ctx, c, fl):
    r = ctx.r
    vals = {fl.strip(e.value) for e in c.calls if e.value}
    for s, o in fl.outcomes:
        if o[0] != "return":
            continue
        what = "%s returns" % c.f.qual
        b = bound(c, o[1])
        if b is None:
            r.bad("result", what, "%s instead of the result of the call" % show(o[1])[:60], c.f.qual)
            continue
        r.check(fl.strip(b.get("rval", NONE)) in vals, "result", what + ": value", "it is %s" % show(
            b.get("rval", NONE))[:60], c.f.qual)
        a = fl.strip(b.get("args", NONE))
        if a[0] == "call" and a[1][0] == "builtin" and a[1][1] in ("list", "tuple") and a[2]:
            a = fl.strip(a[2][0])
        r.check(a in c.family, "result", what + ": arguments", "they are %s" % show(a)[:60], c.f.qual)
        r.check(fl.strip(b.get("sig", NONE)) == ("attr", ("param", "self"), "sig"), "result", what + ": signature",
                "it is %s" % show(b.get("sig", NONE))[:60], c.f.qual)
        g = fl.strip(b.get("guessed", NONE))
        if g[0] == "call" and g[1][0] == "builtin" and g[1][1] in ("list", "tuple", "sorted") and g[2]:
            g = fl.strip(g[2][0])
        r.check(g[0] in ("obj", "comp"), "record-own", what, "the record %s does not belong to the call" % show(g)[:50],
                c.f.qual)
    for e in c.calls:
        r.check(not any(y[1].__class__ in (ast.For, ast.While) for y in e.loops or ()), "passed-list",
                "%s calls once" % c.f.qual, "the native function may be called again", where(e))
    done = [s for s, o in fl.outcomes if o[0] == "return"]
    for s in done:
        k = sum(1 for x in s.trace if x.kind == "call" and x.target in {y.target for y in c.calls})
        r.check(k == 1, "passed-list", "%s calls exactly once" % c.f.qual, "%d calls on a path" % k, c.f.qual)
