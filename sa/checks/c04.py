"""Text of headers is only evaluated in a closed namespace."""

import ast

from ..common import where
from ..flow import NONE, is_const, show, subterms

TITLE = "names in header text never reach Python objects"
RULES = (
    "every call of eval/exec in the package is enumerated on every path (helpers "
    "inlined, arguments followed from the callers): the globals must be a new mapping "
    "whose only entry empties the builtins, the locals must be the table of values "
    "found in the headers; exec and dynamic imports of non constant names are refused."
)
ASSUMPTIONS = ("eval looks names up in the mappings it is given and in __builtins__ only",)

FORBIDDEN_BUILTINS = {"exec", "__import__", "execfile"}
FORBIDDEN_EXT = {"importlib.import_module", "importlib.__import__", "runpy.run_path",
                 "runpy.run_module", "code.interact", "os.system", "builtins.exec",
                 "timeit.timeit"}


def dict_items(t, e, ctx):
    """{key: value term} of a dict made of constant keys, or None."""
    if t[0] == "obj" and t[1] == "dict":
        items = e.state.get((t, "#items"))
        if items is None or e.state.get((t, "#open")):
            return None
        if not all(is_const(k) for k, _ in items):
            return None
        return {k[2]: v for k, v in items}
    if t[0] == "call" and t[1] == ("builtin", "dict") and not t[2]:
        if any(k == "**" for k, _ in t[3]):
            return None
        return dict(t[3])
    if t[0] == "global":
        m = ctx.p.modules.get(t[1])
        v = m.globals.get(t[2]) if m else None
        if v and len(v) == 1 and isinstance(v[0], ast.Dict) and all(
                isinstance(k, ast.Constant) for k in v[0].keys):
            out = {}
            for k, x in zip(v[0].keys, v[0].values):
                if isinstance(x, ast.Dict) and not x.keys:
                    out[k.value] = ("emptydict",)
                elif isinstance(x, ast.Constant):
                    out[k.value] = ("const", type(x.value).__name__, x.value)
                else:
                    out[k.value] = ("unk", 0)
            return out
    return None


def empty_dict(t, e):
    if t == NONE or t == ("emptydict",):
        return True
    if t[0] == "obj" and t[1] == "dict":
        return e.state.get((t, "#items")) == () and not e.state.get((t, "#open"))
    if t[0] == "call" and t[1] == ("builtin", "dict") and not t[2] and not t[3]:
        return True
    return False


def run(ctx):
    p, r = ctx.p, ctx.r
    has = {}
    for f in p.functions.values():
        names = {x.id for x in ast.walk(f.node) if isinstance(x, ast.Name)}
        names |= {x.attr for x in ast.walk(f.node) if isinstance(x, ast.Attribute)}
        has[f.qual] = names
    direct = {q for q, n in has.items()
              if n & ({"exec", "__import__", "compile"})
              or any(isinstance(x, ast.Name) and x.id == "eval"
                     for x in ast.walk(p.functions[q].node))}
    # the callers are included as long as the namespace comes from them
    chain = set(direct)
    todo = sorted(direct)
    done = set()
    nodes = {}
    while todo:
        f = p.functions[todo.pop(0)]
        if f.qual in done or f.parent is not None:
            continue
        done.add(f.qual)
        fl = ctx.flow(f, key=None, opaque=lambda x: x.qual not in chain and
                      len(list(ast.walk(x.node))) > 60)
        forwarded = False
        for e in fl.events:
            if e.kind != "call":
                continue
            if e.target[0] == "builtin" and e.target[1] in FORBIDDEN_BUILTINS:
                c = e.target[1] == "__import__" and e.args and is_const(e.args[0])
                r.check(c, "no-exec", "%s calls %s" % (e.func.qual, e.target[1]),
                        "code is executed", where(e))
            if e.target == ("builtin", "eval"):
                nodes.setdefault(id(e.node), []).append((fl, e))
                rest = list(e.args[1:]) + [v for _, v in e.kwargs or ()]
                if any(s[0] == "param" and s[1] != "self" for t in rest for s in subterms(t)):
                    forwarded = True
        if forwarded:
            chain.add(f.qual)
            todo += [q for q, n in sorted(has.items()) if f.name in n and q != f.qual]
    for f in p.functions.values():
        if f.parent is not None or f.module.name.startswith("headers"):
            continue
        for x in ast.walk(f.node):
            if isinstance(x, ast.Call):
                d = p.resolve_dotted(f.module, x.func)
                if d in FORBIDDEN_EXT or (d or "").startswith("builtins.exec"):
                    const = x.args and isinstance(x.args[0], ast.Constant)
                    r.check(const, "no-exec", "%s calls %s" % (f.qual, d),
                            "text is executed or imported", "%s:%d" % (f.module.rel, x.lineno))
    for key, evs in nodes.items():
        for fl, e in evs:
            kw = dict(e.kwargs or ())
            args = list(e.args)
            what = "%s: eval(%s)" % (e.func.qual, show(args[0])[:50] if args else "")
            g = args[1] if len(args) > 1 else kw.get("globals", kw.get("__globals"))
            if g is None or g[0] == "star":
                r.bad("closed-globals", what, "evaluated with the globals of the parser", where(e))
                continue
            items = dict_items(fl.strip(g), e, ctx)
            ok = items is not None and "__builtins__" in items and empty_dict(
                items["__builtins__"], e) and all(
                is_const(v) for k, v in items.items() if k != "__builtins__")
            r.check(ok, "closed-globals", what,
                    "globals are %s, not a namespace without builtins" % show(g), where(e))
            loc = args[2] if len(args) > 2 else kw.get("locals", kw.get("__locals"))
            if loc is None:
                r.ok("locals", what)
                continue
            r.check(ok_locals(loc, e, fl, ctx), "locals", what,
                    "names are looked up in %s, not in the values of the headers" % show(loc),
                    where(e))
    r.floor("closed-globals", 1)
    r.floor("locals", 1)


def unchanged(t, fl):
    """Nothing but constants is added to the copy `t`."""
    for e in fl.events:
        if e.kind == "mutate" and fl.strip(e.target) == t and e.how not in ("delitem", "pop", "clear", "popitem"):
            if e.how in ("setitem", "setdefault") and len(e.args) == 2 and is_const(fl.strip(e.args[1])):
                continue
            return False
    return True


def ok_locals(t, e, fl, ctx):
    t = fl.strip(t)
    if t == NONE:
        return True
    # forwarded from the caller of the entry point: looked at in the callers
    inner = t
    while inner[0] in ("slice", "ver", "star", "item"):
        inner = inner[1]
    if inner[0] == "param" and inner[1] != "self":
        return True
    if t[0] == "call" and t[1] == ("builtin", "dict") and len(t[2]) == 1 and not t[3]:
        return unchanged(t, fl) and ok_locals(t[2][0], e, fl, ctx)
    if t[0] == "call" and t[1][0] == "method" and t[1][2] == "copy":
        return unchanged(t, fl) and ok_locals(t[1][1], e, fl, ctx)
    if t[0] == "item" and t[2] == ("const", "str", "values") and fl.strip(t[1])[0] == "attr" and (
            fl.strip(t[1])[2] == "defs"):
        return True
    if t[0] == "obj" and t[1] == "dict":
        items = e.state.get((t, "#items"))
        return items is not None and all(
            k == ("star",) and ok_locals(v, e, fl, ctx) or is_const(v) for k, v in items)
    return False
