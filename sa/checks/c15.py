"""One live proxy per library file."""

import ast

from ..common import where
from ..flow import NONE, is_const, mentions, show, subterms
from ..program import AnalysisBroken

TITLE = "a library file has a single live proxy, however it is designated"
RULES = (
    "every path through the construction entry point (the metaclass) is followed: a "
    "proxy returned is either the one read, once, from the registry under the canonical "
    "path of the file and found not to be None, or a new one built after that lookup "
    "failed and registered under the same key; the key is the real path of the very "
    "file which is loaded; the registry is weak and is written nowhere else; the path of "
    "an already loaded library comes from the library itself."
)
ASSUMPTIONS = ("os.path.realpath is idempotent and identifies a file",
               "a WeakValueDictionary never gives back a collected object")

REAL = {"os.path.realpath"}
PATHISH = {"os.path.abspath", "os.path.normpath", "os.path.normcase", "os.fspath", "os.path.expanduser"}


def is_new(t):
    """Construction of a proxy by the next class in the hierarchy."""
    return is_raw(t) or t[0] == "call" and t[1][0] == "method" and (
        t[1][2].endswith("__call__")) and (t[1][2].startswith("super.") or t[1][1] == ("builtin", "type"))


def is_raw(t):
    """Created, but not initialised."""
    return t[0] == "call" and t[1][0] == "method" and t[1][2].split(".")[-1] == "__new__"


def base(t, fl):
    """(designated path, canonical) of a path term."""
    real = False
    while True:
        t = fl.strip(t)
        if t[0] == "call" and t[1][0] == "ext" and t[1][1] in REAL and t[2]:
            real, t = True, t[2][0]
        elif t[0] == "call" and t[1][0] == "ext" and t[1][1] in PATHISH and t[2]:
            t = t[2][0]
        elif t[0] == "call" and t[1] == ("builtin", "str") and len(t[2]) == 1:
            t = t[2][0]
        elif t[0] == "call" and t[1][0] == "method" and t[1][2] == "resolve" and (
                t[1][1][0] == "call" and t[1][1][1] == ("ext", "pathlib.Path")):
            real, t = True, t[1][1][2][0]
        elif t[0] == "call" and t[1][0] == "ext" and t[1][1] in ("pathlib.Path",) and t[2]:
            t = t[2][0]
        elif t[0] == "attr" and t[2] == "path":
            t = t[1]
        elif t[0] == "new" and t[1].endswith("LibraryPath") and t[2]:
            t = t[2][0]
        elif t[0] == "call" and t[1][0] == "cls" and t[1][1].endswith("LibraryPath") and t[2]:
            t = t[2][0]
        else:
            return t, real


def reads(t, fl):
    """(registry, key) when the term is read from a mapping."""
    t = fl.strip(t)
    if t[0] == "call" and t[1][0] == "method" and t[1][2] == "get" and t[2]:
        if len(t[2]) > 1 and t[2][1] != NONE:
            return None
        return fl.strip(t[1][1]), t[2][0]
    if t[0] == "item":
        return fl.strip(t[1]), t[2]
    return None


def entry(ctx):
    for k in ctx.CLibrary.node.keywords:
        if k.arg == "metaclass":
            name = getattr(k.value, "id", None) or getattr(k.value, "attr", None)
            for c in ctx.p.classes.values():
                if c.name == name and c.find("__call__"):
                    return c, c.find("__call__")
    for n in ("__new__",):
        f = ctx.CLibrary.find(n)
        if f is not None:
            return ctx.CLibrary, f
    raise AnalysisBroken("the construction of the libraries is not intercepted")


OPAQUE = ("find_library", "get_arch", "get_library_path", "identify_library", "arch")


def analyse(ctx):
    meta, call = entry(ctx)
    fl = ctx.flow(call, key="c15", implicit=True, max_states=60000,
                  opaque=lambda x: x.name in OPAQUE or x.module.name.startswith("thirdparty"))
    return meta, call, fl


def run(ctx):
    p, r = ctx.p, ctx.r
    meta, call, fl = analyse(ctx)
    lib = ("param", call.params[1])
    # the registry is what new proxies are stored in
    regs = set()
    for e in fl.events:
        if e.kind == "mutate" and e.how in ("setitem", "setdefault") and len(e.args) == 2 and is_new(
                fl.strip(e.args[1])):
            regs.add(fl.strip(e.target))
    news = [e for e in fl.events if e.kind == "call" and is_new(e.value or ("x",))]
    if not news:
        raise AnalysisBroken("no construction of a proxy found in %s" % call.qual)
    if not regs:
        r.bad("registered", call.qual, "a new proxy is not registered", where(news[0]))
        return
    for g in regs:
        r.check(weak(ctx, g, meta), "weak-registry", show(g),
                "the registry keeps the libraries alive or is not shared", call.qual)

    for e in fl.events:
        if e.kind == "mutate" and fl.strip(e.target) in regs and e.args and is_raw(fl.strip(e.args[-1])):
            r.check(any(x.kind == "call" and x.target[0] == "method" and x.target[2] == "__init__"
                        and fl.strip(x.target[1]) == fl.strip(e.args[-1]) for x in e.trace), "registered",
                    "%s: initialised first" % call.qual,
                    "registered before it is initialised: stays registered when that fails", where(e))
    n = 0
    for s, o in fl.outcomes:
        if o[0] != "return":
            # a failed construction leaves no entry
            for e in s.trace:
                if e.kind == "mutate" and fl.strip(e.target) in regs and e.how in ("setitem", "setdefault"):
                    ok = is_new(fl.strip(e.args[1])) or any(
                        x.kind == "mutate" and fl.strip(x.target) in regs and x.how in ("pop", "delitem")
                        for x in s.trace)
                    r.check(ok, "registered", "%s fails" % call.qual,
                            "an entry is left behind by a failed construction", where(e))
            continue
        n += 1
        v = fl.strip(o[1])
        string = kind_of(s.conds, lib)
        what = "%s returns %s" % (call.qual, show(v)[:60])
        sets = [e for e in s.trace if e.kind == "mutate" and fl.strip(e.target) in regs]
        if v[0] == "call" and v[1][0] == "method" and v[1][2] == "setdefault" and fl.strip(v[1][1]) in regs:
            r.check(is_new(fl.strip(v[2][1])), "registered", what, "", call.qual)
            key = v[2][0]
            new = fl.strip(v[2][1])
            looked = key
        elif is_new(v):
            new = v
            mine = [e for e in sets if e.how in ("setitem", "setdefault") and fl.strip(e.args[1]) == v]
            if not r.check(mine, "registered", what, "the new proxy is not registered", call.qual):
                continue
            key = mine[-1].args[0]
            looked = missing(s, fl, regs, before=v)
            if looked is None:
                r.bad("looked-up-first", what, "built without looking for the open library", call.qual)
                continue
            r.check(same(looked, key, fl), "looked-up-first", what,
                    "registered under %s but looked up under %s" % (show(key), show(looked)), call.qual)
            vals = {e.args[1] for e in mine}
        else:
            rd = reads(v, fl)
            if rd is None or rd[0] not in regs:
                r.bad("registered", what, "neither a new proxy nor a registered one", call.qual)
                continue
            key, new = rd[1], None
            raw = o[1]
            if v[0] == "item":
                r.check(in_try(call), "single-read", what,
                        "tested then read: the proxy can be collected in between", call.qual)
            else:
                known = s.conds.get(("is", v, NONE)) is False or s.conds.get(v) is True or (
                    s.conds.get(o[1]) is True) or s.conds.get(("is", raw, NONE)) is False
                r.check(known, "single-read", what, "may return None", call.qual)
        b, real = base(key, fl)
        r.check(real, "canonical-key", what, "the key %s is not the real path of the file" % show(key), call.qual)
        src = loaded(s, fl, b, lib, string, new, ctx)
        r.check(src is None, "key-of-the-file", what, src or "", call.qual)
    if not n:
        raise AnalysisBroken("%s never returns" % call.qual)
    # nothing else keeps the proxies alive
    for e in fl.events:
        vals = [fl.strip(a) for a in tuple(e.args or ()) + ((e.value,) if e.value else ()) if isinstance(a, tuple)]
        kept = [v for v in vals if is_new(v) or reads(v, fl) and reads(v, fl)[0] in regs]
        if e.kind == "setattr" and kept and e.target[0] in ("cls", "module", "ext", "param") or (
                e.kind == "setglobal" and kept):
            if e.target[0] == "param" and e.target[1] != call.params[0]:
                continue
            r.bad("weak-registry", "%s keeps the library" % call.qual, "the class keeps the library alive", where(e))
        if e.kind == "mutate" and kept and fl.strip(e.target) not in regs and fl.strip(e.target)[0] in (
                "attr", "global") and fl.strip(e.args[-1] if e.args else NONE) in kept and e.how in (
                "setitem", "setdefault", "append", "add", "insert"):
            r.bad("weak-registry", "%s keeps the library" % call.qual,
                  "%s keeps the library alive" % show(e.target), where(e))
    r.floor("registered", 1)

    # nobody else writes to the registry
    names = {g[2] for g in regs if g[0] in ("attr", "global")}
    for f in p.functions.values():
        if f.parent is not None or f is call or f.module.name.startswith("headers"):
            continue
        if f.cls is meta and any(g.qual == call.qual for g in ctx.callers(f)):
            continue  # helper, inlined above
        for x in ast.walk(f.node):
            t = None
            if isinstance(x, (ast.Subscript,)) and isinstance(x.ctx, (ast.Store, ast.Del)):
                t = x.value
            elif isinstance(x, (ast.Attribute, ast.Name)) and isinstance(x.ctx, (ast.Store, ast.Del)):
                t = x if f.cls is meta or isinstance(x, ast.Attribute) else None
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in (
                    "pop", "clear", "update", "setdefault", "popitem"):
                t = x.func.value
            if isinstance(t, ast.Attribute) and t.attr in names:
                r.bad("registered", "%s changes %s" % (f.qual, t.attr),
                      "the registry is changed outside of the constructor",
                      "%s:%d" % (f.module.rel, x.lineno))

    # path of a library already loaded
    for f in p.functions.values():
        if f.name != "get_library_path" or f.cls is not None:
            continue
        if not f.module.name.startswith("backends."):
            continue
        g = ctx.flow(f, key="c15p", opaque=lambda x: x.name == "find_library")
        arg = ("param", f.params[0])
        for s, o in g.outcomes:
            if o[0] != "return":
                continue
            b, _ = base(o[1], g)
            nm = ("attr", arg, "_name")
            if b == nm:
                ok = any(a[0] == "call" and a[1][0] == "ext" and a[1][1] in (
                    "os.path.isfile", "os.path.exists") and base(a[2][0], g)[0] == nm and pol
                    for a, pol in s.conds.items())
                msg = "the name of the library may not be a path"
            else:
                ok = b[0] == "call" and b[1][0] == "func" and b[1][1].endswith("find_library") and (
                    base(b[2][0], g)[0] == nm)
                msg = "the path %s is not the one of the library" % show(b)
            r.check(ok, "path-of-a-library", "%s returns %s" % (f.qual, show(o[1])[:60]), msg, f.qual)


def in_try(call):
    """The read is made where a missing key is handled."""
    for x in ast.walk(call.node):
        if isinstance(x, ast.Try):
            hs = {n for h in x.handlers for n in names_of(h)}
            if hs & {"KeyError", "LookupError", "Exception", "*"}:
                for y in x.body:
                    for z in ast.walk(y):
                        if isinstance(z, ast.Subscript):
                            return True
    return False


def names_of(h):
    if h.type is None:
        return {"*"}
    ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
    return {getattr(t, "id", getattr(t, "attr", "")) for t in ts}


def same(a, b, fl):
    return fl.strip(a) == fl.strip(b) or base(a, fl) == base(b, fl)


def missing(s, fl, regs, before):
    """Key whose absence from the registry was established on the path."""
    for a, pol in s.conds.items():
        if a[0] == "is" and a[2] == NONE and pol:
            rd = reads(a[1], fl)
            if rd and rd[0] in regs:
                return rd[1]
        if a[0] == "in" and fl.strip(a[2]) in regs and not pol:
            return a[1]
        rd = reads(a, fl)
        if rd and rd[0] in regs and not pol:
            return rd[1]
    for e in s.trace:
        if e.kind == "handler" and len(e.target) > 3 and set(e.how) & {
                "KeyError", "LookupError", "Exception", "*"}:
            rd = reads(e.target[3], fl)
            if rd and rd[0] in regs:
                return rd[1]
    # lookup conditions may have been dropped with the branch where it was found
    for e in s.trace:
        for a, pol in (e.conds or {}).items():
            if a[0] == "is" and a[2] == NONE and pol:
                rd = reads(a[1], fl)
                if rd and rd[0] in regs:
                    return rd[1]
            if a[0] == "in" and fl.strip(a[2]) in regs and not pol:
                return a[1]
            rd = reads(a, fl)
            if rd and rd[0] in regs and not pol:
                return rd[1]
    return None


def kind_of(conds, lib):
    """True: designated by a text, False: by an object, None: unknown."""
    for a, pol in conds.items():
        if a[0] == "call" and a[1] == ("builtin", "isinstance") and a[2][0] == lib:
            if a[2][1] == ("builtin", "str"):
                return pol
            if a[2][1][0] == "tuple" and ("builtin", "str") in a[2][1][1]:
                return pol
    return None


def has_sep(conds, lib):
    for a, pol in conds.items():
        if a[0] == "in" and a[2] == lib and (a[1] in (("ext", "os.sep"), ("ext", "os.path.sep"))
                                             or is_const(a[1]) and a[1][2] in ("/", "\\")):
            return pol
        if a[0] == "eq" and mentions(a, lib) and any(
                x[0] == "call" and x[1] == ("ext", "os.path.basename") for x in a[1:]):
            return not pol
        if a[0] == "call" and a[1] == ("ext", "os.path.dirname") and a[2][0] == lib:
            return pol
    return None


def loaded(s, fl, b, lib, string, new, ctx):
    """None, or why the key does not denote the file loaded."""
    found = b[0] == "call" and b[1][0] in ("func", "global") and "find_library" in show(b[1])
    if string is False:
        if b[0] == "call" and b[1][0] == "func" and b[1][1].endswith("get_library_path"):
            return None if b[2] and fl.strip(b[2][0]) == lib else "path of something else"
        if b[0] == "attr" and b[1] == lib or b[0] == "call" and b[1] == ("builtin", "getattr") and b[2][0] == lib:
            if not any(a[0] == "call" and a[1][0] == "ext" and a[1][1] in (
                    "os.path.isfile", "os.path.exists") and pol and base(a[2][0], fl)[0] == b
                    for a, pol in s.conds.items()):
                return "the name of a loaded library may not be a path"
        if mentions(b, lib):
            return None
        return "the key %s does not depend on the library" % show(b)
    if found:
        if fl.strip(b[2][0]) != lib:
            return "the library looked for is %s" % show(b[2][0])
        if has_sep(s.conds, lib) is True:
            return "a path is looked for as a name"
    elif b == lib:
        if has_sep(s.conds, lib) is False:
            return "a bare name is used as a path"
    else:
        return "the key %s does not denote the library" % show(b)
    if new is not None:
        if not new[2]:
            return "nothing is loaded"
        a = [x for x in new[2] if x[0] != "cls"]
        if not any(base(x, fl)[0] == b for x in a[:2]):
            return "loads %s but is registered as %s" % (show(a[0]), show(b))
    return None


def weak(ctx, g, meta):
    node = None
    if g[0] == "attr":
        for c in [meta] + list(meta.mro()) + list(ctx.CLibrary.mro()):
            if g[2] in c.attrs and c.attrs[g[2]] is not None:
                node, m = c.attrs[g[2]], c.module
                break
    elif g[0] == "global":
        m = ctx.p.modules.get(g[1])
        v = m.globals.get(g[2]) if m else None
        node = v[0] if v and len(v) == 1 else None
    if node is None or not isinstance(node, ast.Call):
        return False
    return ctx.p.resolve_dotted(m, node.func) == "weakref.WeakValueDictionary"
