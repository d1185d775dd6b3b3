"""With call locking, native code only runs under the library's lock."""

import ast

from ..common import where
from ..flow import NONE, TRUE, State, is_const, mentions, show, subterms
from ..program import AnalysisBroken

TITLE = "with call locking, native calls are serialised by the library's lock"
RULES = (
    "construction, over abstract values, of a library with call locking on and of its function "
    "wrappers (constructor arguments and fields followed through), then lock-set "
    "analysis of every method: each call of a native function must be made while "
    "holding a re-entrant lock stored once, by the constructor, on the library (or its "
    "class); no path, exceptional ones included, leaves with the lock held."
)
ASSUMPTIONS = (
    "the with statement releases the lock however its body ends",
    "threading.RLock is a re-entrant mutual exclusion lock",
)

LIB = ("param", "LIB")


def run(ctx):
    p, r = ctx.p, ctx.r

    def types(t):
        if t == LIB:
            return ctx.Backend
        return ctx.types(t)

    # the library, as its constructor leaves it when locking is requested
    init = ctx.method(ctx.CLibrary, "__init__")
    if "lock_calls" not in init.params:
        raise AnalysisBroken("CLibrary has no lock_calls option")
    fl = ctx.flow(init, key=None, args={"self": LIB, "lock_calls": TRUE}, types=types,
                  opaque=lambda f: f.cls is not None and f.cls is not ctx.CLibrary
                  and f.cls is not ctx.Backend)
    fields = {}
    done = [s for s, o in fl.outcomes if o[0] == "return"]
    if not done:
        raise AnalysisBroken("CLibrary constructor never returns")
    names = {k[1][1:] for s in done for k in s.heap if k[0] == LIB and k[1].startswith(".")}
    for n in names:
        vals = {s.heap.get((LIB, "." + n)) for s in done}
        if len(vals) == 1 and None not in vals:
            fields[n] = vals.pop()

    def is_rlock(v):
        return v is not None and v[0] == "call" and v[1] == ("ext", "threading.RLock")

    locks = {n for n, v in fields.items() if is_rlock(v)}
    anylock = {n for n, v in fields.items()
               if v[0] == "call" and v[1][0] == "ext" and v[1][1].startswith("threading.")}
    # class level locks
    for c in ctx.Backend.mro():
        for n, v in c.attrs.items():
            if v is not None and ctx.p.resolve_dotted(c.module, getattr(v, "func", v)) == "threading.RLock":
                locks.add(n)
    # nobody else replaces the lock
    for f in ctx.functions():
        if f.qual == init.qual or f.parent is not None:
            continue
        if f.module.name.startswith("headers") or not any(
                isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr in locks
                or isinstance(x, ast.Name) and x.id == "setattr" for x in ast.walk(f.node)):
            continue
        g = ctx.flow(f, key="opaque", opaque=lambda x: True)
        for e in g.events:
            if e.kind == "setattr" and e.args[0] in locks:
                r.check(f.cls is not None and f.cls is not ctx.CLibrary and f.cls is not ctx.Backend
                        and e.target == ("param", "self"),
                        "lock-set-once", "%s sets %s" % (f.qual, e.args[0]),
                        "the lock of a library is replaced after its construction", where(e))
    for n in sorted(locks):
        r.ok("lock-set-once", "CLibrary.%s" % n)

    state = State()
    for n, v in fields.items():
        if is_const(v):
            state.heap[(LIB, "." + n)] = v

    def native(t):
        """Terms for objects taken from the native library."""
        if t[0] == "call" and t[1] == ("builtin", "getattr") and t[2] and (
                t[2][0] == ("attr", LIB, "_lib_")):
            return True
        if t[0] in ("attr", "item", "method") and t[1] == ("attr", LIB, "_lib_"):
            return True
        return False

    # the function wrappers, as the library builds them
    sites = []
    for c in ctx.Backend.mro():
        for f in c.methods.values():
            if ctx.Backend.find(f.name) is not f or f.name == "__init__":
                continue
            args = {f.params[0]: LIB} if f.params and not f.is_static else {}
            opq = lambda x: x.cls in (ctx.CParser, ctx.CFunction, ctx.CallResult, ctx.Type) or (  # noqa
                x.name in ("_get_type", "_get_struct"))
            g = ctx.flow(f, key=None, args=args, types=types, opaque=opq,
                         state=state.copy(), self_cls=ctx.Backend)
            for e in g.events:
                if e.kind == "call" and e.target == ("cls", ctx.CFunction.qual):
                    sites.append((g, e))
                if e.kind == "call" and native(e.target) and not (
                        e.target[0] == "method" and e.target[2] == "LoadLibrary"):
                    _held(r, e, locks, anylock)
            for s, o in g.outcomes:
                if o[0] == "return":
                    r.check(not native(g.strip(o[1])), "native-escape", "%s returns" % f.qual,
                            "the bare native function is handed out", f.qual)
            for e in g.events:
                if e.kind == "mutate" and any(native(g.strip(a)) for a in e.args or () if isinstance(a, tuple) and a):
                    r.bad("native-escape", "%s: %s" % (f.qual, show(e.target)[:40]),
                          "the bare native function is kept as an object of the library", where(e))
    if not sites:
        raise AnalysisBroken("no construction of CFunction by the library")
    cinit = ctx.method(ctx.CFunction, "__init__")
    seen = set()
    flags = {(ctx.Backend, n) for n, v in fields.items() if v == TRUE}
    n_native = 0
    for g, e in sites:
        key = (e.args, e.kwargs)
        if key in seen:
            continue
        seen.add(key)
        env = g.bind(cinit.node, (("param", "self"),) + tuple(e.args), e.kwargs or (), _H)
        opq = lambda x: x.cls in (ctx.CParser, ctx.CallResult, ctx.Type) or (  # noqa
            x.cls in (ctx.CLibrary, ctx.Backend))
        ci = ctx.flow(cinit, key=None, args=env, types=types, state=state.copy(), opaque=opq)
        for s, o in ci.outcomes:
            if o[0] != "return":
                continue
            st = state.copy()
            for k, v in s.heap.items():
                if k[0] == ("param", "self") and k[1].startswith(".") and (
                        v == LIB or is_const(v) or native(v)
                        or (v[0] == "attr" and v[1] == LIB)):
                    st.heap[k] = v
            flags |= {(ctx.CFunction, k[1][1:]) for k, v in st.heap.items()
                      if k[0] == ("param", "self") and v == TRUE}
            if not any(native(v) for v in st.heap.values()):
                raise AnalysisBroken("the wrapper does not keep the native function")
            for f in ctx.CFunction.methods.values():
                if f.name == "__init__":
                    continue
                h = ctx.flow(f, key=None, types=types, state=st.copy(), opaque=opq)
                for e2 in h.events:
                    if e2.kind == "call" and native(e2.target):
                        n_native += 1
                        _held(r, e2, locks, anylock)
                    elif e2.kind == "call" and e2.target[0] not in ("func", "closure", "cls"):
                        for a in e2.args or ():
                            if native(a) and e2.target[0] != "builtin" and not (
                                    e2.target[0] == "method" and e2.target[2] == "format"):
                                r.bad("native-escape", f.qual,
                                      "the native function is handed to %s" % show(e2.target),
                                      where(e2))
                for s2, o2 in h.outcomes:
                    left = [x for x in s2.held if x[0] in ("acq", "with")]
                    r.check(not left, "released", "%s (%s)" % (f.qual, o2[0]),
                            "leaves with %s held" % [show(x[1]) for x in left], f.qual)
    constant_flags(ctx, flags)
    if not n_native:
        raise AnalysisBroken("no call of the native function found in CFunction")
    r.floor("native-call-locked", 1)
    r.floor("released", 1)


def constant_flags(ctx, flags):
    """What selects the locked call is only set by the constructors."""
    r = ctx.r
    names = {n for c, n in flags}
    for f in ctx.functions():
        if f.parent is not None or f.module.name.startswith("headers") or not any(
                isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)) and x.attr in names
                for x in ast.walk(f.node)):
            continue
        g = ctx.flow(f, key="opaque", opaque=lambda x: True)
        for e in g.events:
            if e.kind != "setattr" or e.args[0] not in names:
                continue
            owner = g.typeof(e.target)
            if f.name == "__init__" and e.target == ("param", "self"):
                continue
            hit = [c for c, n in flags if n == e.args[0] and (owner is None or owner in c.mro() or c in owner.mro())]
            r.check(not hit or e.value == TRUE, "flag-set-once", "%s sets %s" % (f.qual, e.args[0]),
                    "the locking of the calls is changed after the construction", where(e))


def _held(r, e, locks, anylock):
    ok = False
    held = [x[1] for x in e.held]
    for h in held:
        if h[0] == "attr" and h[1] == LIB and h[2] in locks:
            ok = True
        if h[0] == "attr" and h[1][0] == "cls" and h[2] in locks:
            ok = True
    what = "%s calls %s" % (e.func.qual, show(e.target)[:50])
    if not ok and any(h[0] == "attr" and h[2] in anylock for h in held):
        msg = "called under a lock which is not re-entrant"
    else:
        msg = "native function called without the library's lock (held: %s)" % (
            [show(h) for h in held])
    r.check(ok, "native-call-locked", what, msg, where(e))


class _H:
    heap = {}
    conds = {}
    env = {}
