"""The binding layer never changes the parsed definitions."""

from ..alias import Alias
from ..common import where
from ..flow import show

TITLE = "binding never changes the parsed definitions"
RULES = (
    "ownership (alias depth) fixpoint over every function of the binding layer and of "
    "the read-only queries of the parser: no object which may belong to the parser's "
    "definition tables is the target of an assignment, deletion, in-place operator or "
    "mutating method; definitions are tracked through locals, loops, slices, copies, "
    "fields, parameters and results."
)
ASSUMPTIONS = (
    "ctypes and the standard library do not modify the lists, tuples and dicts they are given",
    "mutating methods are those of the builtin containers",
)

QUERIES = ("eval_type", "is_fund_type", "find", "find_text", "print_all", "__str__",
           "packing_at", "write_cache")


def run(ctx):
    p, r = ctx.p, ctx.r
    funcs = [f for f in p.functions.values()
             if f.module is ctx.CLibrary.module or f.module is ctx.Backend.module
             or f.module.name.startswith("backends")]
    funcs += [m for m in ctx.Type.methods.values()]
    queries = [ctx.CParser.methods[n] for n in QUERIES if n in ctx.CParser.methods]
    # helpers of the parser reachable from there are inlined
    flows = {}
    todo = [f for f in funcs + queries if f.parent is None]
    while todo:
        f = todo.pop()
        if f.qual in flows:
            continue
        fl = flows[f.qual] = ctx.flow(f, key="opaque", opaque=lambda x: True)
        # methods of the parser used by the binding layer
        for e in fl.events:
            if e.kind == "call" and e.target[0] == "func":
                g = p.functions.get(e.target[1])
                if g is not None and g.parent is None and g.name != "__init__":
                    todo.append(g)
    qset = {f.qual for f in queries}
    tset = {m.qual for m in ctx.Type.methods.values()}
    pinit = {"__new__", "__init__"}

    def source(t, fl):
        if t[0] == "attr" and t[2] in ("_headers_", "_defs_"):
            return 0
        if t[0] == "attr" and t[2] in ("defs", "file_defs", "compiled_types"):
            c = fl.typeof(t[1])
            if c is ctx.CParser:
                return 0
        if t == ("param", "self") and fl.entry.qual in tset and fl.entry.name not in pinit:
            return 0
        if t[0] == "param" and fl.entry.qual in tset and t[1] == "type_map":
            return 0
        if t[0] == "call" and t[1][0] == "func":
            f = p.functions.get(t[1][1])
            if f is not None and f.cls in (ctx.CParser, ctx.Type):
                return 0
        return None

    values = {c.qual for c in p.classes.values() if c.module is ctx.CParser.module
              and c is not ctx.CParser}
    a = Alias(p, flows, source, values)
    r.alias = a
    for q, e, lv in a.writes():
        what = "%s %s %s" % (e.func.qual, e.how, show(e.target)[:60])
        if e.kind == "setattr" and e.args[0] in ("_headers_", "_defs_"):
            r.ok("foreign-write", what)
            continue
        r.check(lv != 0, "foreign-write", what,
                "changes an object belonging to the parsed definitions: %s (%s)"
                % (show(e.target), e.how), where(e))
    r.floor("foreign-write", 15)
    # definitions reach the binding layer
    tainted = [k for k, v in a.PT.items() if v < 3] + [k for k, v in a.FT.items() if v < 3]
    for k in tainted:
        r.ok("tracked", "%s.%s" % k)
    r.floor("tracked", 3)
