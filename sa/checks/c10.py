"""A cache replaces the parsing only when it matches the request exactly."""

import ast

from ..common import where
from ..flow import FALSE, NONE, TRUE, is_const, mentions, show, subterms
from ..program import AnalysisBroken

TITLE = "a cache is used only for the same options, version and unchanged headers"
RULES = (
    "path conditions of every use of the unpickled data: with validity checking on, "
    "definitions are imported only on paths where every recorded item other than the "
    "definitions was found equal to the parser's, and where no existing header is more "
    "recent than the cache; reading errors end in a refusal, not an exception; the "
    "recorded options hold every constructor argument the result depends on, before "
    "anything is processed; the cache is written after all the files were parsed."
)
ASSUMPTIONS = (
    "equality of the pickled options is the equality of the options",
    "file modification times are reliable",
)
SELF = ("param", "self")


def is_pickled(t):
    if t[0] != "call":
        return False
    if t[1][0] == "ext" and t[1][1].split(".")[-1] in ("load", "loads") and (
            t[1][1].split(".")[0] in ("pickle", "cPickle", "_pickle", "dill", "marshal", "json")):
        return True
    return t[1][0] == "method" and t[1][2] == "load" and t[1][1][0] == "call" and (
        t[1][1][1] == ("ext", "pickle.Unpickler"))


def uses_pickled(t):
    return any(is_pickled(x) for x in subterms(t))


def mtime(t, fl):
    """The path whose modification time the term is."""
    t = fl.strip(t)
    if t[0] == "attr" and t[2] in ("st_mtime", "st_mtime_ns"):
        b = fl.strip(t[1])
        if b[0] == "call" and b[1] in (("ext", "os.stat"), ("ext", "os.lstat")) and b[2]:
            return fl.strip(b[2][0])
        if b[0] == "call" and b[1][0] == "method" and b[1][2] == "stat":
            return unpath(fl.strip(b[1][1]), fl)
    if t[0] == "call" and t[1] == ("ext", "os.path.getmtime") and t[2]:
        return fl.strip(t[2][0])
    return None


def unpath(t, fl):
    if t[0] == "call" and t[1] == ("ext", "pathlib.Path") and t[2]:
        return fl.strip(t[2][0])
    return t


def existence(atom, fl):
    """Path whose existence the condition tests."""
    if atom[0] == "call" and atom[1][0] == "ext" and atom[1][1] in (
            "os.path.isfile", "os.path.exists") and atom[2]:
        return fl.strip(atom[2][0])
    if atom[0] == "call" and atom[1][0] == "method" and atom[1][2] in ("is_file", "exists"):
        return unpath(fl.strip(atom[1][1]), fl)
    return None


def all_files(it, fl):
    """The term ranges over every loaded file."""
    it = fl.strip(it)
    while it[0] == "call" and it[2] and it[1] in (
            ("builtin", "list"), ("builtin", "sorted"), ("builtin", "tuple"), ("builtin", "set"),
            ("builtin", "reversed"), ("builtin", "iter"), ("builtin", "enumerate")):
        it = fl.strip(it[2][0])
    if it[0] == "slice" and all(x == NONE for x in it[2:4]):
        it = fl.strip(it[1])
    if it[0] == "call" and it[1][0] == "method" and it[1][2] in ("keys", "copy", "items"):
        it = fl.strip(it[1][1])
    return it in (("attr", SELF, "file_order"), ("attr", SELF, "files"))


def elem_paths(t, it):
    return t[0] in ("elem", "key", "item") and mentions(t, it)


def not_newer(clause, it, cache, fl):
    """The clause (set of literals about one file) excludes a more recent file."""
    for a, v in clause:
        ex = existence(a, fl)
        if ex is not None and not v and mentions(ex, fl.strip(base_of(it, fl))):
            return True
        if a[0] == "lt":
            x, y = mtime(a[1], fl), mtime(a[2], fl)
            if x is None or y is None:
                continue
            b = fl.strip(base_of(it, fl))
            if x == cache and mentions(y, b) and not v:
                return True
            if y == cache and mentions(x, b) and v:
                return True
    return False


def base_of(it, fl):
    it = fl.strip(it)
    while True:
        if it[0] == "call" and it[2] and it[1][0] == "builtin":
            it = fl.strip(it[2][0])
        elif it[0] == "call" and it[1][0] == "method":
            it = fl.strip(it[1][1])
        elif it[0] == "slice":
            it = fl.strip(it[1])
        elif it[0] == "comp":
            it = fl.strip(it[3])
        else:
            return it


def fresh(conds, cache, fl):
    for a, v in conds.items():
        if a[0] == "forall" and v:
            it = fl.strip(a[1])
            extra = frozenset()
            if it[0] == "comp" and it[4] is not None:
                # loop over the existing files only
                ok = all(existence(c, fl) is not None and w for c, w in it[4])
                if not ok or not all_files(it[3], fl):
                    continue
            elif not all_files(it, fl):
                continue
            if all(not_newer(c, it, cache, fl) for c in a[3]):
                return True
        if a[0] == "lt":
            # comparison with the most recent file
            for x, y, want in ((a[1], a[2], False), (a[2], a[1], True)):
                y = fl.strip(y)
                if mtime(x, fl) == cache and v == want and y[0] == "call" and (
                        y[1] == ("builtin", "max")) and y[2]:
                    c = fl.strip(y[2][0])
                    if c[0] == "comp" and all_files(c[3], fl) and mtime(c[2], fl) is not None and all(
                            existence(q, fl) is not None and w for q, w in c[4]):
                        return True
    return False


def equalities(conds):
    out = set()
    for a, v in conds.items():
        if a[0] == "eq" and v:
            todo = [(a[1], a[2])]
            while todo:
                x, y = todo.pop()
                if x[0] == "tuple" and y[0] == "tuple" and len(x[1]) == len(y[1]):
                    todo += list(zip(x[1], y[1]))
                else:
                    out.add((x, y))
                    out.add((y, x))
    return out


def attr_name(t, fl, ctx):
    t = fl.strip(t)
    if t[0] == "attr" and (t[1] == SELF or t[1][0] == "cls"
                           or t[1] == ("call", ("builtin", "type"), (SELF,), ())):
        return t[2]
    return None


def run(ctx):
    p, r = ctx.p, ctx.r
    load = ctx.method(ctx.CParser, "load_cache")
    write = ctx.method(ctx.CParser, "write_cache")
    proc = ctx.method(ctx.CParser, "process_all")
    init = ctx.method(ctx.CParser, "__init__")
    if "check_validity" not in load.params:
        raise AnalysisBroken("load_cache has no check_validity argument")

    # -- what is written -------------------------------------------------------
    wf = ctx.flow(write, key=None)
    written = None
    for e in wf.events:
        if e.kind == "call" and e.args and (
                e.target[0] == "ext" and e.target[1] in ("pickle.dump", "pickle.dumps")
                or e.target[0] == "method" and e.target[2] == "dump"):
            obj = wf.strip(e.args[0])
            written = {}
            for k, v in e.state.get((obj, "#items")) or ():
                if is_const(k):
                    written[k[2]] = v
            for x in e.trace:
                if x.kind == "mutate" and x.how == "setitem" and x.target == obj and is_const(x.args[0]):
                    written[x.args[0][2]] = x.args[1]
            if obj[0] == "call" and obj[1] == ("builtin", "dict"):
                written.update(dict(obj[3]))
            wevent = e
    if not written:
        raise AnalysisBroken("write_cache does not pickle a dict with constant keys")
    names = {k: attr_name(v, wf, ctx) for k, v in written.items()}
    defs_key = [k for k, n in names.items() if n == "file_defs"]
    r.check(len(defs_key) == 1, "recorded", "definitions by file",
            "the definitions of every file are not in the cache (%s)" % sorted(written), where(wevent))
    versions = [n for n, v in ctx.CParser.attrs.items() if "version" in n]
    vkeys = [k for k, n in names.items() if n in versions]
    r.check(vkeys, "recorded", "version of the parser", "the version is not recorded", where(wevent))
    okeys = [k for k, n in names.items() if n and n not in versions and n != "file_defs"]
    r.check(okeys, "recorded", "options of the parser", "the options are not recorded", where(wevent))

    # -- when it is used -------------------------------------------------------
    opq = lambda x: x.name in ("import_dict", "add_def")  # noqa
    lf = ctx.flow(load, key=None, args={"check_validity": TRUE}, opaque=opq)
    imports = []
    for e in lf.events:
        args = tuple(e.args or ()) + tuple(v for _, v in e.kwargs or ())
        if e.kind == "call" and e.target[0] == "func" and opq(p.functions[e.target[1]]) and any(
                uses_pickled(a) for a in args):
            imports.append(e)
        if e.kind in ("mutate", "setattr") and mentions(e.target, SELF) and any(
                isinstance(a, tuple) and uses_pickled(a) for a in (e.args or ()) + (e.value or (),)):
            imports.append(e)
        if e.kind == "call" and (is_pickled(e.value or ("x",)) or e in imports):
            caught = any(catches_all(h) for t in e.tries for h in t.handlers)
            r.check(caught, "unreadable-refused", "%s: %s" % (e.func.qual, show(e.target)),
                    "a failure of this call is not turned into a refusal of the cache", where(e))
    if not imports:
        raise AnalysisBroken("load_cache imports nothing")
    for e in imports:
        what = "%s: %s" % (e.func.qual, show(e.target))
        pick = [x for a in e.args if isinstance(a, tuple) for x in subterms(a) if is_pickled(x)]
        L = pick[0]
        cache = cache_path(L, lf)
        eqs = equalities(e.conds)
        for k, v in written.items():
            if k in defs_key:
                continue
            want = ("item", L, ("const", "str", k))
            ok = any(lf.strip(x) == want and (
                y == v or attr_name(y, lf, ctx) == names[k] is not None) for x, y in eqs) or any(
                x[0] == "call" and x[1][0] == "method" and x[1][1] == L and x[1][2] == "get"
                and x[2] and x[2][0] == ("const", "str", k) and all(is_const(z) for z in x[2])
                and attr_name(y, lf, ctx) == names[k]
                for x, y in eqs)
            r.check(ok, "matches", "%s, recorded %s" % (what, k),
                    "used on a path where the recorded %r may differ from the parser's" % k, where(e))
        if defs_key:
            src = [a for a in e.args if isinstance(a, tuple) and uses_pickled(a)]
            r.check(all(mentions(a, ("const", "str", defs_key[0])) for a in src), "matches",
                    what + ", definitions", "something else than the definitions is imported", where(e))
        r.check(fresh(e.conds, cache, lf), "not-older", what,
                "used on a path where an existing header may be more recent than the cache", where(e))
    ids = {id(e) for e in imports}
    for s, o in lf.outcomes:
        touched = any(id(e) in ids for e in s.trace)
        opened = any(e.kind == "call" and e.value is not None and is_pickled(e.value) for e in s.trace)
        if o[0] == "raise" and opened:
            r.bad("unreadable-refused", load.qual, "raises once the cache was read", load.qual)
        if o[0] == "return":
            t = o[1]
            if is_const(t) and t[2]:
                r.check(touched, "success-means-loaded", load.qual,
                        "reports success without having imported the definitions", load.qual)
            elif not is_const(t):
                r.check(touched, "success-means-loaded", load.qual,
                        "result is %s" % show(t), load.qual)
            if touched and is_const(t) and not t[2] and not any(
                    e.kind == "handler" for e in s.trace):
                r.bad("success-means-loaded", load.qual, "reports failure after importing", load.qual)
    r.floor("matches", 2)
    r.floor("not-older", 1)
    r.floor("unreadable-refused", 1)

    # -- import_dict restores everything -----------------------------------------
    imp = ctx.method(ctx.CParser, "import_dict")
    jf = ctx.flow(imp, key=None, opaque=lambda x: x.name == "add_def")
    adds = [e for e in jf.events if e.kind == "call" and e.target[0] == "func"
            and e.target[1].endswith(".add_def")]
    if not adds:
        raise AnalysisBroken("import_dict adds nothing")
    for e in adds:
        data = ("param", imp.params[1])
        filters = [c for c in e.conds if mentions(c, data) or any(
            x[0] in ("elem", "key", "idx") for x in subterms(c))]
        r.check(not filters, "everything-restored", imp.qual,
                "definitions are only restored when %s" % [show(c) for c in filters][:1], where(e))
        r.check(len(e.loops) >= 2 and full_range(e, data, jf), "everything-restored",
                imp.qual + " ranges", "not all the files, categories or names are restored", where(e))

    # -- process_all -------------------------------------------------------------
    pf = ctx.flow(proc, key=None, opaque=lambda x: x.cls is ctx.CParser and x.name in (
        "load_cache", "write_cache", "parse_defs", "preprocess", "remove_comments", "import_dict"))
    parse = [e for e in pf.events if e.kind == "call" and e.target[0] == "func"
             and e.target[1] == ctx.CParser.qual + ".parse_defs"]
    if not parse:
        raise AnalysisBroken("process_all does not parse")
    for e in pf.events:
        if e.kind != "call" or e.target[0] != "func":
            continue
        n = p.functions[e.target[1]].name
        if n == "load_cache":
            kw = dict(e.kwargs)
            chk = kw.get("check_validity") or (e.args[2] if len(e.args) > 2 else None)
            r.check(chk == ("param", "check_cache_validity") or chk == TRUE, "validity-requested",
                    proc.qual, "the cache is loaded with check_validity=%s" % (show(chk) if chk else "default"),
                    where(e))
        if n == "write_cache":
            late = not e.loops and all(x.seq < e.seq for x in parse)
            r.check(late, "written-last", proc.qual, "the cache is written before all files are parsed",
                    where(e))
            hit = any(a[0] == "call" and a[1][0] == "func" and a[1][1].endswith(".load_cache") and v
                      for a, v in e.conds.items())
            r.check(not hit, "written-last", proc.qual + " after a miss",
                    "written although loaded", where(e))
    r.floor("validity-requested", 1)
    r.floor("written-last", 1)

    # -- the recorded options are complete ------------------------------------------
    options = {names[k] for k in okeys}
    complete(ctx, init, options)


def catches_all(h):
    if h.type is None:
        return True
    ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
    return any(isinstance(t, ast.Name) and t.id in ("Exception", "BaseException") for t in ts)


def cache_path(L, fl):
    """The path the pickled object comes from."""
    for x in subterms(L):
        if x[0] == "call" and x[1] in (("builtin", "open"), ("ext", "io.open"), ("ext", "gzip.open")) and x[2]:
            return unpath(fl.strip(x[2][0]), fl)
        if x[0] == "call" and x[1][0] == "method" and x[1][2] in ("read_bytes", "open"):
            return unpath(fl.strip(x[1][1]), fl)
    return None


def full_range(e, data, fl):
    """The loops around the restoration cover all files, categories and names."""
    for site, node, it in e.loops:
        if it is None:
            return False
        b = fl.strip(it)
        if any(x[0] == "slice" for x in subterms(b)):
            return False
        if any(x[0] == "comp" and x[4] for x in subterms(b)):
            return False
        if b[0] in ("tuple", "list") or b[0] == "consts":
            return False
    return True


LOSSY = {"len", "bool", "type", "id", "hash", "max", "min", "any", "all", "isinstance", "sum"}


KEYS_ONLY = {"list", "tuple", "set", "frozenset", "sorted", "iter", "enumerate", "str.join"}


def keeps(t, sub, maps=()):
    """The value of `sub` can be told from the value of `t`."""
    if t == sub:
        return True
    if not isinstance(t, tuple) or not t:
        return False
    if t[0] in ("eq", "lt", "is", "in", "not"):
        return False
    if t[0] == "call" and t[1][0] == "builtin" and t[1][1] in LOSSY:
        return False
    if t[0] == "call" and len(t) > 2:
        # only the names of a dict
        dicts = [x for x in t[2] if isinstance(x, tuple) and x and (
            x in maps or x[0] == "attr" and x[2] in ("defs", "file_defs"))]
        if dicts and (t[1][0] == "builtin" and t[1][1] in KEYS_ONLY or t[1][0] in ("ext", "method")
                      and str(t[1][-1]).endswith("fromkeys")):
            return False
        if t[1][0] == "method" and t[1][2] == "keys":
            return False
    return any(isinstance(y, tuple) and keeps(y, sub, maps) for y in t)


def deep_mentions(t, sub, state, maps=(), seen=()):
    if keeps(t, sub, maps):
        return True
    for x in subterms(t):
        if x[0] == "obj" and x not in seen:
            for item in state.get((x, "#items")) or ():
                if deep_mentions(("tuple", item if isinstance(item[0], tuple) else (item,)), sub,
                                 state, maps, seen + (x,)):
                    return True
    return False


def root_of(t, fl):
    t = fl.strip(t)
    while t[0] in ("item", "elem", "ver"):
        t = fl.strip(t[1])
    return t


def complete(ctx, init, options):
    p, r = ctx.p, ctx.r
    opq = lambda x: x.cls is ctx.CParser and x.name in (  # noqa
        "process_all", "import_dict", "add_def", "find_headers", "load_cache") or (
        x.cls is None and x.name == "auto_init")
    fl = ctx.flow(init, key=None, opaque=opq)
    ignored = {"self", "process_all", "cache", "check_cache_validity"}
    params = [q for q in init.params if q not in ignored]
    kwname = init.node.args.kwarg.arg if init.node.args.kwarg else None
    done = [e for e in fl.events if e.kind == "call" and e.target[0] == "func"
            and e.target[1] == ctx.CParser.qual + ".process_all"]
    if not done:
        raise AnalysisBroken("the constructor does not process the files")
    first = min(e.seq for e in done)

    def is_option(e):
        if e.kind == "setattr" and e.target == SELF and e.args[0] in options:
            return True
        if e.kind != "mutate":
            return False
        t = root_of(e.target, fl)
        vals = opt_values | nested | {("attr", SELF, o) for o in options}
        if t in vals:
            return True
        return t == ("param", kwname) and e.target[0] == "item"

    opt_values = {fl.strip(e.value) for e in fl.events if e.kind == "setattr"
                  and e.target == SELF and e.args[0] in options}

    nested = set()
    for e in fl.events:
        if e.kind == "setattr" and e.target == SELF and e.args[0] in options:
            for it in e.state.get((fl.strip(e.value), "#items")) or ():
                for x in it:
                    if isinstance(x, tuple) and x and x[0] == "obj":
                        nested.add(x)
        if e.kind == "mutate" and e.how == "setitem" and fl.strip(e.args[-1])[0] == "obj" and (
                root_of(e.target, fl) in opt_values or fl.strip(e.target) in opt_values):
            nested.add(fl.strip(e.args[-1]))

    def records(e, q):
        if not is_option(e):
            return False
        vals = list(e.args or ()) + ([e.value] if e.value else []) + [v for _, v in e.kwargs or ()]
        if q == "copy_from":
            vals = [v for v in vals if isinstance(v, tuple) and any(
                x[0] == "attr" and x[2] in ("defs", "file_defs") and keeps(v, x) for x in subterms(v))]
        return any(isinstance(v, tuple) and deep_mentions(
            v, ("param", q), e.state or {}, (("param", kwname),)) for v in vals)

    for q in params:
        bad = None
        for e in done:
            if any(records(x, q) for x in e.trace):
                continue
            none = any(a[0] == "is" and v and ("param", q) in a[1:3] and NONE in a[1:3]
                       or a == ("param", q) and not v for a, v in e.conds.items())
            if none:
                continue
            # recorded when the file is loaded
            inloop = [x for x in fl.events if x.seq < first and x.loops and records(x, q)]
            if inloop and not e.loops:
                continue
            bad = e
            break
        r.check(bad is None, "options-complete", "%s argument %s" % (init.qual, q),
                "a parser created with another %s would accept the cache: it is not part of the "
                "recorded options when the files are processed" % q, where(bad) if bad else "")
    # each loaded file is recorded together with its replacements
    load = ctx.CParser.find("load_file")
    if load is not None:
        g = ctx.flow(load, key=None)
        for s, o in g.outcomes:
            used = [e for e in s.trace if e.kind == "mutate" and g.strip(e.target) == ("attr", SELF, "file_order")]
            if not used:
                continue
            for q in ("path", "replace"):
                if q not in load.params:
                    continue
                ok = any(e.kind == "mutate" and root_of(e.target, g) in {("attr", SELF, o2) for o2 in options}
                         and any(isinstance(a, tuple) and mentions(a, ("param", q)) for a in e.args)
                         and not (e.how == "setitem" and is_const(e.args[0]) and not any(
                             mentions(e.args[-1], ("attr", SELF, o2)) for o2 in options))
                         for e in s.trace)
                none = q == "replace" and any(
                    a[0] == "is" and v and ("param", q) in a[1:3] for a, v in s.conds.items())
                direct = any(records(x, q) for x in fl.events if not x.loops)
                r.check(ok or none or direct, "options-complete", "%s records %s" % (load.qual, q),
                        "a loaded file does not record its %s" % q, load.qual)
    r.floor("options-complete", 4)
