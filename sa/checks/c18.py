"""An error in a declaration or a macro does not stop the processing."""

import ast

from ..common import own_nodes, where
from ..flow import NONE, show
from ..program import AnalysisBroken

TITLE = "an error in one declaration or macro never stops the processing of a header"
RULES = (
    "exception escape analysis: every function of the package registered as a parse action of the "
    "grammar given to the scanner is followed with the failure of every call (helpers inlined, "
    "decorators and context managers followed): no failure nor raise gets out of it (an action may let errors out when the "
    "element it belongs to is only used inside statements catching everything); the same holds, in the "
    "preprocessing, for the definition and the removal of macros, the evaluation of "
    "conditions and the expansion of macros; an expression which cannot be evaluated gives None; "
    "declarations are looked for by scanning the whole text, what is not understood being skipped."
)
ASSUMPTIONS = ("formatting the message logged for an error does not fail",
               "running out of memory or of stack is not considered")

SAFE = {"format", "exception", "debug", "error", "info", "warning", "log", "critical", "keys", "items", "values",
        "strip", "lstrip", "rstrip", "upper", "lower", "title", "join", "format_exc", "exc_info", "repr", "str",
        "len", "isinstance", "list", "tuple", "dict", "set", "type", "append", "get", "bool", "hasattr", "startswith",
        "endswith", "partial", "asList", "dump", "as_list", "enumerate", "zip", "getLogger", "isEnabledFor", "copy",
        "nullcontext", "suppress", "print_exc", "splitlines", "replace", "any", "all"}
#: what may fail on the text of a header, in the stages themselves
RISKY = {"eval", "exec", "int", "float", "next", "literal_eval", "parseString", "parse_string", "parseFile", "index",
         "remove", "Fraction", "Decimal", "fromhex", "decode", "chr", "compile"}
SCAN = {"scanString", "scan_string", "transformString", "transform_string", "searchString", "search_string"}
PARSE = {"parseString", "parse_string", "parseFile", "parse_file"}
REGISTER = {"setParseAction", "set_parse_action", "addParseAction", "add_parse_action"}
#: verified here on their own
NOESCAPE = ("eval_expr", "expand_macros", "eval_preprocessor_expr")
DEEP = ("process_type", "process_declarator", "eval", "add_def", "expand_fn_macro", "packing_at",
        "build_parser", "compile_fn_macro", "process_macro_defn") + NOESCAPE


def callee(node):
    f = getattr(node, "func", None)
    return getattr(f, "attr", None) or getattr(f, "id", None) or ""


def actions(ctx):
    """[(function, element or None, registering function, node, wrapped by)] of the parser class."""
    out = []
    for g in ctx.p.functions.values():
        if g.module.name.startswith(("headers", "thirdparty")):
            continue
        local = {}
        for x in own_nodes(g.node):
            if isinstance(x, ast.Assign) and isinstance(x.value, ast.Attribute):
                for t in x.targets:
                    if isinstance(t, ast.Name):
                        local[t.id] = x.value
        parents = {c: x for x in own_nodes(g.node) for c in ast.iter_child_nodes(x)}
        tables = loops(g)
        for x in own_nodes(g.node):
            if not (isinstance(x, ast.Call) and callee(x) in REGISTER):
                continue
            for a in x.args:
                for fn, wrap in resolve(ctx, g, a, local, tables):
                    out.append((fn, element(x, parents), g, x, wrap))
    return out


def loops(g):
    """Names taken from the rows of literal tables: name -> expressions."""
    out = {}
    for x in own_nodes(g.node):
        if isinstance(x, ast.For):
            it = x.iter
            if isinstance(it, ast.Call) and callee(it) == "items" and isinstance(it.func.value, ast.Dict):
                rows = [ast.Tuple(elts=[k, v]) for k, v in zip(it.func.value.keys, it.func.value.values)]
            elif isinstance(it, (ast.Tuple, ast.List)):
                rows = it.elts
            else:
                continue
            if isinstance(x.target, ast.Tuple):
                for i, t in enumerate(x.target.elts):
                    if isinstance(t, ast.Name):
                        out[t.id] = [r.elts[i] for r in rows if isinstance(r, ast.Tuple) and len(r.elts) > i]
            elif isinstance(x.target, ast.Name):
                out[x.target.id] = rows
    return out


def resolve(ctx, g, a, local, tables, wrap=None):
    if isinstance(a, ast.Name) and a.id in tables:
        for b in tables[a.id]:
            yield from resolve(ctx, g, b, local, {}, wrap)
        return
    if isinstance(a, ast.Name) and a.id in local:
        a = local[a.id]
    if isinstance(a, ast.Attribute) and isinstance(a.value, ast.Name):
        m = ctx.CParser.find(a.attr)
        if m is not None and (g.cls is not None or a.value.id == ctx.CParser.name):
            yield m, wrap
        return
    if isinstance(a, ast.Call):
        w = None
        nm = callee(a)
        if isinstance(a.func, ast.Attribute):
            w = ctx.CParser.find(nm)
        w = w or g.module.functions.get(nm)
        if nm == "partial":
            w = wrap
        for b in list(a.args) + [k.value for k in a.keywords]:
            yield from resolve(ctx, g, b, local, tables, w or wrap)
        return
    if isinstance(a, ast.Lambda):
        for x in ast.walk(a.body):
            if isinstance(x, ast.Call):
                yield from resolve(ctx, g, x.func, local, tables, wrap)
        return
    if isinstance(a, ast.Name):
        f = g.module.functions.get(a.id)
        if f is not None:
            yield f, wrap


def element(call, parents):
    """Attribute of the parser holding the element the action belongs to."""
    b = call.func.value
    while isinstance(b, ast.Call) and isinstance(b.func, ast.Attribute):
        b = b.func.value
    if isinstance(b, ast.Attribute):
        return b.attr
    x = call
    while x in parents and not isinstance(x, ast.stmt):
        x = parents[x]
    if isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Attribute):
        return x.targets[0].attr
    return None


def run(ctx):
    p, r = ctx.p, ctx.r
    acts = actions(ctx)
    if not acts:
        raise AnalysisBroken("no parse action found")
    done = set()
    protected_elements = {}
    for fn, elem, g, node, wrap in acts:
        if fn.cls is None:
            check_plain(ctx, fn)
            continue
        if elem is not None:
            if elem not in protected_elements:
                protected_elements[elem] = confined(ctx, elem)
            if protected_elements[elem]:
                r.ok("element-confined", "%s, action %s" % (elem, fn.qual))
                continue
        key = (fn.qual, wrap.qual if wrap else None)
        if key in done:
            continue
        done.add(key)
        check_action(ctx, fn, wrap)
    if len(done) < 3:
        raise AnalysisBroken("the actions of the declarations were not recognised")
    for n in NOESCAPE:
        f = ctx.method(ctx.CParser, n)
        fl = analysed(ctx, f)
        for s, o in fl.outcomes:
            esc = escaping(s, o, SAFE | {"compile", "search", "start", "end", "groups", "group", "transformString",
                                         "match", "transform_string", "finditer", "sub", "split", "setParseAction",
                                         "set_parse_action"}, ext=True)
            r.check(esc is None, "no-escape", "%s: %s" % (f.qual, esc or "all paths"), "the error gets out of it", f.qual)
            if n == "eval_expr" and o[0] == "return" and any(e.kind == "fail" for e in s.trace):
                r.check(fl.strip(o[1]) == NONE, "failure-gives-none", f.qual,
                        "gives %s although the expression could not be evaluated" % show(o[1])[:60], f.qual)
    for n in ("preprocess", "remove_comments", "parse_defs"):
        f = ctx.method(ctx.CParser, n)
        fl = analysed(ctx, f)
        for s, o in fl.outcomes:
            esc = risky(s, o)
            r.check(esc is None, "stage-goes-on", "%s: %s" % (f.qual, esc or "all paths"),
                    "the error stops the processing of the header", f.qual)
        if n == "parse_defs":
            scanning(ctx, f, fl)
    r.floor("no-escape", 5)
    r.floor("stage-goes-on", 2)


def analysed(ctx, f):
    return ctx.flow(f, key="c18", implicit="all", fail_del=True, opaque=lambda x: x.name in DEEP and x.qual != f.qual)


def failed(s):
    fs = [e for e in s.trace if e.kind == "fail"]
    return fs[-1] if fs else None


def origin(exc):
    """Line at which the exception which ends the path was born."""
    return exc[2] if len(exc) > 2 and isinstance(exc[2], tuple) else None


def removal(e):
    if e is not None and isinstance(e.node, ast.Subscript):
        return "removal of %s" % ast.unparse(e.node)[:40]
    return None


def managers(f, nm):
    """The name is a context manager written as a generator."""
    g = f.module.functions.get(nm) if f else None
    if g is None and f is not None and f.cls is not None:
        g = f.cls.find(nm)
    return g is not None and any("contextmanager" in ast.unparse(d) for d in g.node.decorator_list)


def escaping(s, o, safe, ext=False):
    """Description of the error which gets out."""
    if o[0] != "raise":
        return None
    exc = o[1]
    e = failed(s)
    if exc[1] != "?":
        return removal(e) or "raise %s" % exc[1]
    if e is None:
        return "an error raised again"
    nm = callee(e.node)
    t = e.target
    if managers(e.func, nm):
        return None
    if nm in safe or e.node is not None and isinstance(e.node, ast.Subscript):
        return None
    if ext and t is not None and t[0] == "ext" and t[1].startswith("pyparsing."):
        return None
    return "failure of %s" % (nm or "a call")


def risky(s, o):
    if o[0] != "raise":
        return None
    e = failed(s)
    if o[1][1] != "?":
        return removal(e) or "raise %s" % o[1][1]
    if e is None:
        return "an error raised again"
    nm = callee(e.node)
    t = e.target
    if nm in NOESCAPE or nm in ("build_parser", "packing_at"):
        return None
    if nm in RISKY or nm in DEEP:
        if nm == "compile" and all(isinstance(a, ast.Constant) for a in e.node.args):
            return None
        if nm == "int" and guarded_digits(s, e):
            return None
        return "failure of %s" % nm
    return None


def guarded_digits(s, e):
    """int(x) after x was found to be made of digits (or matched by a pattern of digits)."""
    for a, pol in s.conds.items():
        if pol and a[0] == "call" and a[1][0] == "method" and a[1][2] in ("isdigit", "isdecimal"):
            return True
        if pol and a[0] in ("call",) and "match" in show(a):
            return True
    return any(c.kind == "call" and c.target[0] == "method" and c.target[2] in ("isdigit", "isdecimal")
               for c in s.trace) or any("isdigit" in show(a) or "isdecimal" in show(a) for a in s.conds)


def check_action(ctx, fn, wrap):
    """No error gets out of a parse action."""
    r = ctx.r
    guard = wrap
    for d in fn.node.decorator_list:
        t = d.func if isinstance(d, ast.Call) else d
        nm = getattr(t, "id", None) or getattr(t, "attr", None)
        f = fn.module.functions.get(nm)
        if f is None and nm in fn.module.imports:
            f = ctx.p.lookup_dotted(fn.module.imports[nm])
            f = f if hasattr(f, "node") and isinstance(f.node, ast.FunctionDef) else None
        if f is None and fn.cls is not None:
            f = fn.cls.find(nm)
        if f is not None:
            guard = f
    if guard is not None:
        inner = [g for g in ctx.p.functions.values() if g.qual.startswith(guard.qual + ".")
                 and g.qual != fn.qual] or [guard]
        for g in inner:
            fl = analysed(ctx, g)
            tight = True
            for s, o in fl.outcomes:
                esc = escaping(s, o, SAFE | {"wraps"})
                if esc is not None:
                    tight = False
            if tight and any(x.kind == "fail" for s, o in fl.outcomes for x in s.trace):
                r.ok("no-escape", "%s, run by %s" % (fn.qual, g.qual))
                return
    fl = analysed(ctx, fn)
    for s, o in fl.outcomes:
        esc = escaping(s, o, SAFE)
        r.check(esc is None, "no-escape", "%s: %s" % (fn.qual, esc or "all paths"),
                "the error stops the processing of the header", fn.qual)
    # what is not a call
    for x, ok in outside(fn.node.body, False):
        if ok:
            continue
        what = None
        if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Load) and not isinstance(x.slice, ast.Slice):
            if not (isinstance(x.slice, ast.Constant) and (
                    x.slice.value == 0 and isinstance(x.value, ast.Name) or isinstance(x.slice.value, str))):
                what = "the item %s" % ast.unparse(x)[:50]
        elif isinstance(x, (ast.Raise, ast.Assert, ast.Delete)):
            what = type(x).__name__.lower()
        elif isinstance(x, ast.BinOp) and not isinstance(x.op, ast.Mod) and not texts(x):
            what = "the operation %s" % ast.unparse(x)[:50]
        elif isinstance(x, ast.Assign) and isinstance(x.targets[0], (ast.Tuple, ast.List)) and not isinstance(
                x.value, (ast.Tuple, ast.List)):
            what = "the unpacking of %s" % ast.unparse(x.value)[:50]
        if what:
            r.bad("no-escape", "%s: %s" % (fn.qual, what), "can fail outside of any handler",
                  "%s:%d" % (fn.module.rel, x.lineno))


def texts(x):
    """Concatenation of strings (one side is a literal or a formatted string)."""
    if isinstance(x, ast.BinOp):
        return texts(x.left) or texts(x.right)
    return isinstance(x, ast.JoinedStr) or isinstance(x, ast.Constant) and isinstance(x.value, str) or (
        isinstance(x, ast.Call) and callee(x) in ("format", "str", "repr", "join"))


def broad(h):
    ts = [] if h.type is None else h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
    ids = {getattr(t, "id", getattr(t, "attr", "")) for t in ts}
    return h.type is None or bool(ids & {"Exception", "BaseException"})


def outside(body, prot):
    """(node, protected) for every node."""
    for s in body:
        if isinstance(s, ast.Try):
            p = prot or any(broad(h) for h in s.handlers)
            yield from outside(s.body, p)
            for h in s.handlers:
                yield from outside(h.body, prot)
            yield from outside(s.orelse, prot)
            yield from outside(s.finalbody, prot)
            continue
        if isinstance(s, (ast.With, ast.AsyncWith)):
            yield from outside(s.body, True)
            continue
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            continue
        blocks = []
        yield s, prot
        for n, v in ast.iter_fields(s):
            if n in ("body", "orelse", "finalbody", "handlers", "cases"):
                blocks.append(v)
                continue
            for y in v if isinstance(v, list) else [v]:
                if isinstance(y, ast.AST):
                    for z in ast.walk(y):
                        yield z, prot
        for b in blocks:
            if b and isinstance(b[0], ast.stmt):
                yield from outside(b, prot)


def check_plain(ctx, fn):
    """Function made for one element: it has nothing which fails on purpose."""
    for x in own_nodes(fn.node):
        bad = isinstance(x, (ast.Raise, ast.Assert)) or isinstance(x, ast.Call) and callee(x) in RISKY
        if bad and not inside_try(fn.node, x):
            ctx.r.bad("no-escape", "%s: %s" % (fn.qual, ast.unparse(x)[:40]), "the error gets out of the parse action",
                      "%s:%d" % (fn.module.rel, x.lineno))
    ctx.r.ok("no-escape", fn.qual)


def inside_try(fn, node):
    for x, prot in outside(fn.body, False):
        if x is node:
            return prot
    return False


def confined(ctx, elem):
    """Every use of the element is parsing inside a statement catching everything."""
    uses = 0
    for g in ctx.p.functions.values():
        if g.module.name.startswith(("headers", "thirdparty")):
            continue
        aliases = set()
        nodes = list(outside(g.node.body, False))
        for x, prot in nodes:
            if isinstance(x, ast.Assign) and isinstance(x.value, ast.Attribute) and x.value.attr == elem:
                aliases |= {t.id for t in x.targets if isinstance(t, ast.Name)}
        consumed = set()
        for x, prot in nodes:
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute):
                b = x.func.value
                if isinstance(b, ast.Attribute) and b.attr == elem or isinstance(b, ast.Name) and b.id in aliases:
                    if callee(x) in PARSE | SCAN:
                        if not prot and not callers_protect(ctx, g):
                            return False
                        uses += 1
                        consumed.add(b)
                    elif callee(x) in REGISTER | {"setName", "set_name", "ignore", "setDebug"}:
                        consumed.add(b)
        for x, prot in nodes:
            if isinstance(x, ast.Assign) and isinstance(x.value, ast.Attribute) and x.value.attr == elem and aliases:
                consumed.add(x.value)
        for x, prot in nodes:
            if isinstance(x, ast.Attribute) and x.attr == elem and isinstance(x.ctx, ast.Load) and x not in consumed:
                return False
    return uses > 0


def callers_protect(ctx, g, depth=0):
    if not g.name.startswith("_") or depth > 3:
        return False
    found = False
    for h in ctx.callers(g):
        for x, prot in outside(h.node.body, False):
            if isinstance(x, ast.Call) and callee(x) == g.name:
                found = True
                if not prot and not callers_protect(ctx, h, depth + 1):
                    return False
    return found


def scanning(ctx, f, fl):
    r = ctx.r
    n = 0
    for e in fl.events:
        if e.kind != "call" or e.target[0] != "method":
            continue
        nm = e.target[2]
        if nm in SCAN:
            n += 1
            r.ok("text-scanned", "%s: %s" % (f.qual, nm))
        elif nm in PARSE:
            r.bad("text-scanned", "%s: %s" % (f.qual, nm), "stops at the first text which is not understood", where(e))
            n += 1
    if not n:
        raise AnalysisBroken("no scan of the text found in %s" % f.qual)
