"""The global and per file views of the definitions always agree."""

import ast

from ..common import where
from ..flow import NONE, is_const, mentions, show, subterms
from ..program import AnalysisBroken
from .c10 import full_range

TITLE = "the definitions of a file and the global ones always agree"
RULES = (
    "every write to the definition tables is enumerated (helpers inlined): on each path "
    "a definition stored globally is stored under the same category, name and value for "
    "the base name of the file being processed, and conversely; a definition removed "
    "globally is removed for every file; the file being processed is set before "
    "anything is defined; the tables are created by the constructor only."
)
ASSUMPTIONS = ("the tables are only reached through the attributes of the parser",)

SELF = ("param", "self")
DEFS = ("attr", SELF, "defs")
FDEFS = ("attr", SELF, "file_defs")
CUR = ("attr", SELF, "current_file")
ADD = {"setitem", "setdefault", "update", "__setitem__"}
DEL = {"delitem", "pop", "popitem", "clear", "__delitem__"}


def table(e, fl):
    """('global', category) or ('file', file, category) for a definition table."""
    t = fl.strip(e.target)
    if t[0] == "item" and fl.strip(t[1]) == DEFS:
        return ("global", t[2])
    if t[0] == "item":
        f = fl.strip(t[1])
        if f[0] == "item" and fl.strip(f[1]) == FDEFS:
            return ("file", f[2], t[2])
        if f[0] in ("elem", "val", "value") and mentions(f, FDEFS):
            return ("file", f, t[2])
        if f[0] == "call" and f[1][0] == "method" and f[1][2] in ("setdefault", "get") and (
                fl.strip(f[1][1]) == FDEFS) and f[2]:
            return ("file", f[2][0], t[2])
        m = made_for(f, e, fl)
        if m is not None:
            return ("file", m, t[2])
    return None


def made_for(f, e, fl):
    """File for which a new table was created on the path."""
    for x in reversed(e.trace):
        if x.kind == "mutate" and len(x.args) == 2 and fl.strip(x.args[1]) == f and fl.strip(
                x.target) == FDEFS:
            return x.args[0]
    return None


def file_ok(f, e, fl):
    """The file is the one being processed."""
    f = fl.strip(f)
    isnone = None
    for a, v in e.conds.items():
        if a[0] == "is" and CUR in a[1:3] and NONE in a[1:3]:
            isnone = v
        if a == CUR:
            isnone = not v
    if f == NONE:
        return isnone is True
    if f == CUR:
        return isnone is True
    if f[0] == "call" and f[1] in (("ext", "os.path.basename"),) and fl.strip(f[2][0]) == CUR:
        return True
    if f[0] == "item" and f[1][0] == "call" and f[1][1] == ("ext", "os.path.split") and (
            fl.strip(f[1][2][0]) == CUR) and is_const(f[2]) and f[2][2] in (1, -1):
        return True
    if f[0] == "attr" and f[2] == "name" and f[1][0] == "call" and f[1][1][0] == "ext" and (
            "Path" in f[1][1][1]) and fl.strip(f[1][2][0]) == CUR:
        return True
    return False


def over_files(loops, fl):
    for site, node, it in loops:
        if it is None:
            continue
        b = fl.strip(it)
        while b[0] == "call":
            if b[1][0] == "method" and b[1][2] in ("values", "items", "keys", "copy"):
                b = fl.strip(b[1][1])
            elif b[1][0] == "builtin" and b[2] and b[1][1] in ("list", "tuple", "iter", "sorted"):
                b = fl.strip(b[2][0])
            else:
                break
        if b == FDEFS:
            return node
    return None


def run(ctx):
    p, r = ctx.p, ctx.r
    methods = list(ctx.CParser.methods.values())
    names = {"defs", "file_defs"}
    init = ctx.method(ctx.CParser, "__init__")

    def touches(f):
        return any(isinstance(x, ast.Attribute) and x.attr in names for x in ast.walk(f.node))

    def stores(f):
        """May write to the tables itself."""
        for x in ast.walk(f.node):
            if isinstance(x, (ast.Subscript, ast.Attribute)) and isinstance(x.ctx, (ast.Store, ast.Del)):
                return True
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ADD | DEL:
                return True
        return False

    todo = [(f, frozenset()) for f in methods if touches(f) and stores(f)]
    # other classes of the package only read the tables (binding)
    done = set()
    n_writes = 0
    while todo:
        f, chain = todo.pop(0)
        if (f.qual, chain) in done:
            continue
        done.add((f.qual, chain))
        core = ("add_def", "rem_def")
        fl = ctx.flow(f, key=None, opaque=lambda x: x.qual not in chain and (
            ctx.size(x) > 80 or x.name in core or x.name in ("eval_expr", "build_parser")
            or x.cls is not ctx.CParser and x.cls is not None))
        fwd = False
        seen_paths = set()
        by_path = []
        for s, o in fl.outcomes:
            by_path.append((s.trace, o))
        loop_events = [e for e in fl.events if e.loops]
        for e in fl.events:
            if e.kind == "setattr" and e.target == SELF and e.args[0] in names:
                r.check(f is init, "created-once", "%s sets %s" % (f.qual, e.args[0]),
                        "a table is replaced after the construction", where(e))
                if f is init:
                    r.check(fresh_dict(e.value, e, fl), "created-once", "%s starts empty" % e.args[0],
                            "starts as %s" % show(e.value), where(e))
        # one obligation per write and path
        traces = {}
        for e in fl.events:
            if e.kind == "mutate":
                traces.setdefault(id(e), e)
        for e in traces.values():
            t = table(e, fl)
            base = fl.strip(e.target)
            if base in (DEFS, FDEFS):
                if f is init or e.how in ("setitem", "setdefault") and fresh_dict(e.args[-1], e, fl):
                    r.ok("created-once", "%s creates an entry of %s" % (e.func.qual, base[2]))
                    if base == DEFS and f is not init:
                        r.bad("created-once", "%s resets %s" % (e.func.qual, base[2]),
                              "a category is emptied globally only", where(e))
                else:
                    r.bad("created-once", "%s %s %s" % (e.func.qual, e.how, base[2]),
                          "a table is changed as a whole", where(e))
                continue
            if t is None:
                continue
            n_writes += 1
            # the completions of the paths through this write
            mates = [tr for tr, o in by_path if any(x is e for x in tr)]
            if e.loops:
                mates = mates or [e.trace + tuple(x for x in loop_events if x.loops[:len(e.loops)] == e.loops)]
            what = "%s: %s of %s" % (e.func.qual, e.how, "the global table" if t[0] == "global" else "the file's table")
            bad = None
            if e.how in ADD:
                if e.how == "setdefault":
                    bad = "an existing definition is kept in one view"
                elif e.how == "update" or len(e.args) != 2:
                    bad = "several definitions are changed at once (%s)" % e.how
                for tr in mates:
                    if bad:
                        break
                    other = [x for x in tr if x.kind == "mutate" and x is not e and x.how in ADD
                             and (table(x, fl) or ("",))[0] not in ("", t[0])]
                    ok = False
                    for x in other:
                        tx = table(x, fl)
                        same = tx[-1] == t[-1] and x.args == e.args
                        ff = tx[1] if tx[0] == "file" else t[1]
                        if same and file_ok(ff, x if tx[0] == "file" else e, fl):
                            ok = True
                    if not ok:
                        bad = "not stored in the other view with the same name and value on some path"
            elif e.how in DEL:
                if e.how in ("popitem", "clear"):
                    bad = "several definitions are removed at once"
                elif t[0] == "global":
                    # must be removed from every file
                    cand = [x for x in loop_events if x.kind == "mutate" and x.how in DEL
                            and (table(x, fl) or ("",))[0] == "file"
                            and table(x, fl)[-1] == t[-1] and x.args[:1] == e.args[:1]]
                    cand = [x for x in cand if over_files(x.loops, fl) is not None]
                    if not cand:
                        bad = "not removed from the definitions of every file"
                    for x in cand:
                        node = over_files(x.loops, fl)
                        if any(isinstance(y, (ast.Break, ast.Return)) for y in ast.walk(node)):
                            bad = "the removal stops before the last file"
                        extra = [c for c, v in x.conds.items() if c not in e.conds and not (
                            c[0] == "in" and v and c[1] == e.args[0])]
                        extra = [c for c in extra if c not in base_conds(fl, x)]
                        if extra:
                            bad = "only removed from some files (%s)" % show(extra[0])
                        if x.how == "delitem" and not any(
                                c[0] == "in" and v and c[1] == x.args[0] for c, v in x.conds.items()) and not x.tries:
                            bad = "fails for the files which do not define the name"
                else:
                    glob = [x for x in fl.events if x.kind == "mutate" and x.how in DEL
                            and (table(x, fl) or ("",))[0] == "global"
                            and table(x, fl)[-1] == t[-1] and x.args[:1] == e.args[:1]]
                    if not glob:
                        bad = "removed from the file's view only"
            else:
                bad = "unexpected operation %s" % e.how
            if bad:
                cs = [g for g in ctx.callers(f, calls=True) if g.cls is ctx.CParser and g.qual not in chain]
                if cs and f.name not in core:
                    fwd = True
                    r.ok("views-agree", what + " (helper)")
                    continue
            r.check(not bad, "views-agree", what, bad or "", where(e))
        if fwd:
            for g in ctx.callers(f, calls=True):
                if g.cls is ctx.CParser and g.qual not in chain:
                    todo.append((g, chain | {f.qual}))
    if not n_writes:
        raise AnalysisBroken("no write to the definition tables found")
    r.floor("views-agree", 2)

    # the rest of the package does not write to the tables (checked by ownership
    # for the binding layer); the current file is set first
    for name in ("preprocess", "parse_defs"):
        f = ctx.method(ctx.CParser, name)
        path = ("param", f.params[1])
        fl = ctx.flow(f, key="c11", implicit=False, max_states=60000, opaque=lambda x: True)
        ok = 0
        for e in fl.events:
            if e.kind == "call" and (
                    e.target[0] == "method" and e.target[2] in ("parseString", "scanString", "searchString")
                    or e.target[0] == "func" and p.functions[e.target[1]].name in ("add_def", "rem_def")
                    or e.target[0] == "method" and e.target[2] == "transformString" and name == "parse_defs"):
                cur = e.state.get((SELF, ".current_file"))
                ok += 1
                r.check(cur is not None and fl.strip(cur) == path, "file-set-first", "%s: %s" % (
                    f.qual, show(e.target)[-40:]),
                    "definitions are attributed to %s" % (show(cur) if cur else "the previous file"), where(e))
    f = ctx.method(ctx.CParser, "import_dict")
    data = ("param", f.params[1])
    fl = ctx.flow(f, key="c11", implicit=False, opaque=lambda x: x.name == "add_def")
    for e in fl.events:
        if e.kind == "call" and e.target[0] == "func" and p.functions[e.target[1]].name == "add_def":
            cur = e.state.get((SELF, ".current_file"))
            cur = cur and fl.strip(cur)
            ok = cur is not None and cur[0] in ("key", "elem") and mentions(cur, data)
            r.check(ok, "file-set-first", "%s: add_def" % f.qual, "definitions are attributed to %s" % (
                show(cur) if cur else "the previous file"), where(e))
            part = [c for c in e.conds if mentions(c, data) or mentions(c, DEFS) or any(
                x[0] in ("elem", "key", "idx") for x in subterms(c))]
            r.check(not part and full_range(e, data, fl), "views-agree", "%s: every definition is added" % f.qual,
                    "only some of the definitions are attributed to their file%s" % (
                        " (%s)" % show(part[0])[:60] if part else ""), where(e))
    # the definitions given to the constructor belong to no file
    fl = ctx.flow(init, key="c11", implicit=False, opaque=lambda x: x.name in (
        "add_def", "auto_init", "import_dict", "find_headers", "process_all"))
    for e in fl.events:
        if e.kind == "call" and e.target[0] == "func" and p.functions[e.target[1]].name == "add_def":
            cur = e.state.get((SELF, ".current_file"))
            r.check(cur is not None and fl.strip(cur) == NONE, "file-set-first", "%s: add_def" % init.qual,
                    "definitions given to the constructor are attributed to %s" % (
                        show(cur) if cur else "an unset attribute"), where(e))
    r.floor("file-set-first", 3)


def base_conds(fl, x):
    return {c for c in x.conds if not any(s[0] in ("elem", "key", "idx", "val") for s in subterms(c))}


def fresh_dict(t, e, fl):
    t = fl.strip(t)
    if t[0] == "obj" and t[1] in ("dict",):
        return True
    if t[0] == "comp" and t[1] == "dict":
        return True
    if t[0] == "call" and t[1] in (("builtin", "dict"), ("ext", "collections.OrderedDict"),
                                  ("ext", "collections.defaultdict")):
        return not t[2] or t[1] != ("builtin", "dict")
    return False
