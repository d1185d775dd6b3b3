"""Initialisation: at most once, complete, before any parser works."""

import ast

from ..common import own_nodes, where
from ..flow import C, FALSE, NONE, TRUE, is_const, mentions, show
from ..program import AnalysisBroken
from .c10 import deep_mentions

TITLE = "the package is initialised at most once, completely, before any parser works"
RULES = (
    "path analysis with the failure of every call: keywords and types are installed only "
    "on paths where neither the parser nor the library is flagged as initialised; the "
    "other paths raise before any effect; both flags are set exactly on the paths on "
    "which both installations succeeded, with the types and modifiers given; nothing else "
    "in the package sets the flags or installs keywords; creating a parser initialises "
    "first when, and only when, that was not done; the automatic initialisation adds the "
    "Windows names exactly on Windows, passing everything to the initialisation."
)
ASSUMPTIONS = ("initialisations by several threads at once are not considered",)
INSTALL = ("_init_cparser", "init_libraries", "init_clibrary")


def given(t, param, s, fl):
    """The value comes from the parameter (or the parameter is empty)."""
    t = fl.strip(t)
    if mentions(t, param):
        return True
    if t[0] in ("obj", "const", "tuple", "call", "list", "bin"):
        for a, pol in s.conds.items():
            if a == param and not pol:
                return True
            if a[0] in ("is", "eq") and param in a[1:] and NONE in a[1:] and pol:
                return True
        # a local container filled from the parameter
        for e in s.trace:
            if e.kind == "mutate" and fl.strip(e.target) == t and any(mentions(x, param) for x in e.args or ()):
                return True
    it = s.heap.get((t, "#items"))
    return bool(it) and mentions(it, param)


def flagged(a):
    """Class whose flag the condition tests."""
    t = a
    if a[0] in ("is", "eq") and (TRUE in a[1:] or FALSE in a[1:]):
        t = a[1] if a[2] in (TRUE, FALSE) else a[2]
        neg = FALSE in a[1:]
    else:
        neg = False
    if t[0] == "attr" and t[2] == "_init":
        return t[1], neg
    return None


def flags(conds):
    out = {}
    for a, pol in conds.items():
        f = flagged(a)
        if f:
            out[f[0]] = pol != f[1]
    return out


def run(ctx):
    p, r = ctx.p, ctx.r
    need = {("cls", ctx.CParser.qual), ("cls", ctx.CLibrary.qual)}
    init = p.functions.get("init.init")
    auto = p.functions.get("init.auto_init")
    if init is None or auto is None:
        raise AnalysisBroken("init.init and init.auto_init not found")
    fl = ctx.flow(init, key="c17", implicit="all", opaque=lambda x: x.name in INSTALL)
    inlined = set()
    for e in fl.events:
        inlined.update(e.stack or ())
        if e.kind == "call" and e.target[0] == "func" and e.target[1].rsplit(".", 1)[-1] in INSTALL:
            ok = all(done(e, c) is False for c in need)
            r.check(ok, "only-once", "%s: %s" % (init.qual, show(e.target)),
                    "reached although the package may be initialised", where(e))
        if e.kind == "setattr" and e.args[0] == "_init":
            names = installed(e.trace)
            r.check({"_init_cparser", "init_libraries"} <= names and fl.strip(e.value) == TRUE,
                    "flag-after-success", "%s: %s" % (init.qual, show(e.target)),
                    "flagged before keywords and types are installed", where(e))
    types, mods = ("param", init.params[0]), ("param", init.params[1])
    for s, o in fl.outcomes:
        setf = {fl.strip(e.target) for e in s.trace if e.kind == "setattr" and e.args[0] == "_init"}
        if o[0] == "raise":
            r.check(not setf, "flag-after-success", "%s: failure" % init.qual,
                    "flagged although the initialisation failed", init.qual)
            continue
        r.check(need <= setf, "flag-after-success", "%s: success" % init.qual,
                "not flagged: %s" % ", ".join(show(x) for x in need - setf), init.qual)
        r.check(not any(e.kind == "handler" for e in s.trace), "flag-after-success", "%s: errors" % init.qual,
                "an error is ignored", init.qual)
        for e in s.trace:
            if e.kind == "call" and e.target[0] == "func":
                nm = e.target[1].rsplit(".", 1)[-1]
                if nm in INSTALL:
                    g = p.functions[e.target[1]]
                    got = dict(zip(g.params, e.args))
                    got.update(dict(e.kwargs or ()))
                    r.check("extra_types" in got and given(got["extra_types"], types, s, fl), "installs-given",
                            "%s: types of %s" % (init.qual, nm), "the types given are not passed on", where(e))
                    if nm == "_init_cparser":
                        r.check("extra_modifiers" in got and given(got["extra_modifiers"], mods, s, fl),
                                "installs-given", "%s: modifiers" % init.qual,
                                "the modifiers given are not passed on", where(e))
    # nobody else
    for q, f in sorted(p.functions.items()):
        if f.module.name.startswith(("thirdparty", "headers")) or q in inlined:
            continue
        for x in own_nodes(f.node):
            if isinstance(x, ast.Attribute) and x.attr == "_init" and isinstance(x.ctx, (ast.Store, ast.Del)):
                r.bad("only-init", q, "sets the initialisation flag", "%s:%d" % (f.module.rel, x.lineno))
            if isinstance(x, ast.Call):
                n = getattr(x.func, "id", None) or getattr(x.func, "attr", None)
                tgt = f.module.imports.get(n, n) if hasattr(f.module, "imports") else n
                if n in INSTALL and not (n == "init_clibrary" and f.name == "init_libraries"):
                    r.bad("only-init", q, "installs types or keywords", "%s:%d" % (f.module.rel, x.lineno))
            if isinstance(x, ast.Call) and getattr(x.func, "id", "") == "setattr" and len(x.args) > 1 and (
                    isinstance(x.args[1], ast.Constant) and x.args[1].value == "_init"):
                r.bad("only-init", q, "sets the initialisation flag", "%s:%d" % (f.module.rel, x.lineno))
        r.ok("only-init", q)
    for m in p.modules.values():
        if m.name.startswith(("thirdparty", "headers")):
            continue
        for st in m.tree.body:
            for x in ast.walk(st):
                if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                    break
                if isinstance(x, ast.Call):
                    n = getattr(x.func, "id", None) or getattr(x.func, "attr", None)
                    if n in INSTALL + ("init", "auto_init"):
                        r.bad("only-init", m.name, "initialises at import", "%s:%d" % (m.rel, x.lineno))
    for c in need:
        cls = p.classes[c[1]]
        v = None
        for st in cls.node.body:
            if isinstance(st, ast.Assign) and any(getattr(t, "id", "") == "_init" for t in st.targets):
                v = st.value
            if isinstance(st, ast.AnnAssign) and getattr(st.target, "id", "") == "_init":
                v = st.value
        r.check(isinstance(v, ast.Constant) and v.value is False, "initially-unset", cls.qual,
                "the flag is not False at first", cls.qual)

    # backends
    il = p.functions.get("backends.init_libraries")
    if il is not None:
        gl = ctx.flow(il, key="c17", implicit=False, opaque=lambda x: x.name == "init_clibrary")
        for s, o in gl.outcomes:
            n = [e for e in s.trace if e.kind == "call" and e.target[0] == "func" and e.target[1].endswith("init_clibrary")]
            r.check(len(n) >= 1 and any(mentions(a, ("param", il.params[0])) for e in n for a in e.args + tuple(
                v for _, v in e.kwargs or ())), "installs-given", il.qual,
                "the backend does not get the types given", il.qual)

    # the keywords reach the grammar
    ic = [f for f in p.functions.values() if f.name == "_init_cparser" and f.cls is None]
    for f in ic:
        jl = ctx.flow(f, key="c17", implicit=False, opaque=lambda x: x.cls is not None)
        for s, o in jl.outcomes:
            if o[0] != "return":
                continue
            for name, q in (("extra_type_list", 0), ("base_types", 0), ("fund_type", 0), ("ident", 0),
                            ("extra_modifier", 1)):
                sets = [e for e in s.trace if e.kind == "setglobal" and (
                    e.target[-1] if isinstance(e.target, tuple) else e.target) == name]
                prm = ("param", f.params[q])
                none = any(a[0] == "is" and prm in a[1:3] and pol or a == prm and not pol
                           for a, pol in s.conds.items())
                if not sets or none:
                    continue
                e = sets[-1]
                r.check(deep_mentions(e.value, prm, e.state or {}), "installs-given", "%s: %s" % (f.qual, name),
                        "does not depend on the %s given" % f.params[q], where(e))

    # automatic initialisation
    al = ctx.flow(auto, key="c17", implicit=False, opaque=lambda x: x is init)
    types, mods, osp = (("param", x) for x in (auto.params + ["os"])[:3])
    for s, o in al.outcomes:
        if o[0] != "return":
            continue
        n = [e for e in s.trace if e.kind == "call" and e.target[0] == "func" and e.target[1] == init.qual]
        r.check(len(n) == 1, "automatic", auto.qual, "initialises %d times" % len(n), auto.qual)
        if len(n) != 1:
            continue
        got = dict(zip(init.params, n[0].args))
        got.update(dict(n[0].kwargs or ()))
        for k, prm in (("extra_types", types), ("extra_modifiers", mods)):
            r.check(k in got and given(got[k], prm, s, al), "automatic", "%s: %s" % (auto.qual, k),
                    "what is given is not passed on", where(n[0]))
        win = windows(s.conds, osp)
        for k, nm in (("extra_types", "WIN_TYPES"), ("extra_modifiers", "WIN_MODIFIERS")):
            has = k in got and uses(got[k], nm, s, al)
            if win is None:
                r.bad("automatic", "%s: %s" % (auto.qual, nm),
                      "%s without looking at both systems" % ("added" if has else "left out"), where(n[0]))
            else:
                r.check(has == win, "automatic", "%s: %s on %s" % (auto.qual, nm, "windows" if win else "other systems"),
                        "%s" % ("added" if has else "missing"), where(n[0]))

    # parsers
    k = ctx.method(ctx.CParser, "__init__")
    kl = ctx.flow(k, key="c17", implicit=False, max_states=60000,
                  opaque=lambda x: x.name in ("auto_init", "init") or ctx.size(x) > 40 and not any(
                      isinstance(y, ast.Call) and getattr(y.func, "id", getattr(y.func, "attr", "")) in (
                          "auto_init", "init") for y in own_nodes(x.node)))
    seen = set()
    entered = {q for e in kl.events for q in e.stack or ()}
    for e in kl.events:
        if e.kind != "call" or e.target[0] != "func" or e.target[1] in entered:
            continue
        nm = e.target[1].rsplit(".", 1)[-1]
        st = flags(e.conds)
        me = [v for c, v in st.items() if c in (("param", "self"), ("cls", ctx.CParser.qual))]
        if nm in ("auto_init", "init"):
            seen.add(nm)
            r.check(me == [False], "before-parsing", "%s: %s" % (k.qual, nm),
                    "called although the package may be initialised", where(e))
        else:
            did = any(x.kind == "call" and x.target[0] == "func" and x.target[1] in (auto.qual, init.qual)
                      for x in e.trace)
            r.check(did or me == [True], "before-parsing", "%s: %s" % (k.qual, nm),
                    "the parser works before the initialisation", where(e))
    for s, o in kl.outcomes:
        did = any(x.kind == "call" and x.target[0] == "func" and x.target[1] in (auto.qual, init.qual) for x in s.trace)
        me = [v for c, v in flags(s.conds).items() if c in (("param", "self"), ("cls", ctx.CParser.qual))]
        if o[0] == "return":
            r.check(did or me == [True], "before-parsing", k.qual, "a parser exists without initialisation", k.qual)
    for x in ("only-once", "flag-after-success", "installs-given", "automatic", "before-parsing"):
        r.floor(x, 2)


def done(e, c):
    return flags(e.conds).get(c)


def installed(trace):
    return {e.target[1].rsplit(".", 1)[-1] for e in trace if e.kind == "call" and e.target[0] == "func"}


def windows(conds, osp):
    """True/False when the path is for Windows or not, None when that is not tested."""
    tested = set()
    for a, pol in conds.items():
        if a[0] == "eq" and C("win32") in a[1:]:
            other = a[1] if a[2] == C("win32") else a[2]
            if pol:
                return True
            tested.add(other)
        if a[0] == "in" and a[1] == C("win32") and a[2][0] == "tuple":
            if pol:
                return True
            tested |= set(a[2][1])
        if a[0] == "call" and a[1][0] == "method" and a[1][2] == "startswith" and a[2] and is_const(a[2][0]) and (
                str(a[2][0][2]).startswith("win")):
            if pol:
                return True
            tested.add(a[1][1])
    if ("ext", "sys.platform") in tested and osp in tested:
        return False
    return None


def uses(t, name, s, fl):
    t = fl.strip(t)

    def has(x):
        return isinstance(x, tuple) and (name in x or any(has(y) for y in x))
    if has(t):
        return True
    if any(e.kind == "mutate" and fl.strip(e.target) == t and has(e.args) for e in s.trace):
        return True
    if t[0] == "bin" and any(uses(y, name, s, fl) for y in t[2:4]):
        return True
    it = s.heap.get((t, "#items"))
    return bool(it) and has(it)
