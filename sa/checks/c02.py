"""Objects owned by the caller are never changed."""

import ast

from ..alias import Alias
from ..common import where
from ..flow import show

TITLE = "arguments given by the caller are never modified"
RULES = (
    "ownership (alias depth) fixpoint over every function of the package, with the "
    "parameters of the public entry points as foreign objects: none of them, nor "
    "anything they contain, is the target of an assignment, deletion, in-place operator "
    "or mutating method, directly or through a field, a helper, a loop or a container; "
    "the configured search path lists only change in the functions adding locations."
)
ASSUMPTIONS = (
    "ctypes, pyparsing and the standard library do not modify the containers they are given",
    "mutating methods are those of the builtin containers",
)

PUBLIC = {
    "init.init": None, "init.auto_init": None,
    "c_parser.win_defs": None,
    "c_library.cast_to": None, "c_library.build_array": None,
    "utils.find_header": None, "utils.find_library": None,
    "utils.add_header_locations": None, "utils.add_library_locations": None,
    "c_parser.CParser.__init__": None, "c_parser.CParser.process_all": None,
    "c_parser.CParser.load_cache": None, "c_parser.CParser.import_dict": None,
    "c_parser.CParser.write_cache": None, "c_parser.CParser.find_headers": None,
    "c_parser.CParser.load_file": None, "c_parser.CParser.eval_type": None,
    "c_parser.CParser.is_fund_type": None, "c_parser.CParser.add_def": None,
    "c_parser.CParser.find": None, "c_parser.CParser.find_text": None,
    "c_library.CLibrary.__init__": None, "c_library.CLibrary.__call__": None,
    "c_library.CFunction.__call__": None, "c_library.CFunction.arg_c_type": None,
    "c_library.CallResult.__getitem__": None, "c_library.CallResult.__setitem__": None,
    "c_library.CallResult.find_arg": None,
    "backends.ctypes.init_clibrary": None,
}
ADDERS = ("utils.add_header_locations", "utils.add_library_locations")


def run(ctx):
    p, r = ctx.p, ctx.r
    flows = {}
    for f in p.functions.values():
        if f.parent is None and not f.module.name.startswith("headers"):
            flows[f.qual] = ctx.flow(f, key="opaque", opaque=lambda x: True)
    paths = set()
    for q in ADDERS:
        if q in flows:
            for e in flows[q].events:
                if e.kind == "mutate" and e.target[0] == "global":
                    paths.add(e.target)
                    r.ok("search-path", show(e.target))
    r.floor("search-path", 2)
    entries = {q for q in PUBLIC if q in flows}

    def source(t, fl):
        if t[0] == "param" and t[1] not in ("self", "cls"):
            q = fl.entry.qual
            if q in entries:
                a = fl.entry.node.args
                if a.vararg and a.vararg.arg == t[1] or a.kwarg and a.kwarg.arg == t[1]:
                    return 1
                return 0
        if t in paths:
            return 0
        return None

    values = {c.qual for c in p.classes.values() if c.module is ctx.CParser.module
              and c is not ctx.CParser}
    a = Alias(p, flows, source, values)
    r.alias = a
    for q in sorted(entries):
        for n in p.functions[q].params:
            if n != "self":
                r.ok("caller-owned", "%s(%s)" % (q, n))
    r.floor("caller-owned", 30)
    for q, e, lv in a.writes():
        if q in ADDERS and e.target in paths:
            continue
        what = "%s %s %s" % (e.func.qual, e.how, show(e.target)[:60])
        if lv == 0 and repeated_type(e):
            continue
        r.check(lv != 0, "foreign-write", what,
                "changes an object owned by the caller: %s (%s)"
                % (show(e.target), e.how), where(e))
    r.floor("foreign-write", 30)


def repeated_type(e):
    """`typ *= n` for something which was tested to be a type."""
    n = e.node
    return isinstance(n, ast.AugAssign) and isinstance(n.op, ast.Mult) and any(
        a[0] == "call" and a[1] == ("builtin", "isinstance") and len(a[2]) == 2
        and a[2][1] == ("builtin", "type") for a in e.conds)
