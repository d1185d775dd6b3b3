"""Structure packing applies to the definitions which follow the directive."""

import ast

from ..common import where
from ..flow import NONE, C, is_const, mentions, show, subterms
from ..model import Path
from ..program import AnalysisBroken
from .c08 import Lines

TITLE = "a structure gets the packing of the last #pragma pack preceding it in its file"
RULES = (
    "every path through the loop over the lines adds exactly one line to the preprocessed "
    "text, so that line numbers are the same before and after; each packing directive is "
    "recorded with the index of its line in the list of the file being processed, which "
    "starts empty; the lookup takes the value of the last record placed before the given "
    "line (offsets of both sides are added up); each structure or union is created with the "
    "packing found at its own line."
)
ASSUMPTIONS = (
    "the values kept by push and pop are not decided here",
    "pyparsing.lineno counts the lines of the text being parsed",
)
SELF = ("param", "self")
PACK = ("attr", SELF, "pack_list")


def offset(t, base):
    """t = base + n: n, else None."""
    if t == base:
        return 0
    if t[0] == "bin" and t[1] in ("Add", "Sub"):
        for x, y, s in ((t[2], t[3], 1), (t[3], t[2], 1 if t[1] == "Add" else None)):
            if s and is_const(y) and isinstance(y[2], int):
                o = offset(x, base)
                if o is not None:
                    return o + (y[2] if t[1] == "Add" else -y[2])
    return None


def run(ctx):
    ln = Lines(ctx)
    k = written(ctx, ln)
    lookup(ctx, k)
    structs(ctx)


def written(ctx, ln):
    r, fl = ctx.r, ln.fl
    path = ("param", ln.f.params[1])
    # the text stored at the end
    result = None
    for e in fl.events:
        if e.kind == "mutate" and e.how == "setitem" and not e.loops and fl.strip(e.target) == (
                "attr", SELF, "files") and e.args[0] == path:
            v = e.args[1]
            while v[0] == "call" and v[1][0] == "method" and v[1][2] in (
                    "strip", "lstrip", "rstrip", "replace", "expandtabs", "removeprefix", "removesuffix"):
                r.bad("line-count", "the lines are stored as they are", "%s is applied to the whole text" % v[1][2],
                      where(e))
                v = fl.strip(v[1][1])
            if v[0] == "call" and v[1][0] in ("ext", "method") and v[1][-1] in ("re.sub", "sub", "re.subn"):
                js = [x for x in subterms(v) if x[0] == "call" and x[1][0] == "method" and x[1][2] == "join"]
                if js:
                    r.bad("line-count", "the lines are stored as they are", "%s is applied to the whole text" % v[1][-1], where(e))
                    v = js[0]
            if v[0] == "call" and v[1][0] == "method" and v[1][2] == "join":
                lst = fl.strip(v[2][0])
                while lst[0] in ("comp", "slice"):
                    if lst[0] == "slice" and lst[2:] != (NONE, NONE, NONE) or lst[0] == "comp" and lst[4]:
                        r.bad("line-count", "the lines are stored as they are", "some lines are left out", where(e))
                    nxt = fl.strip(lst[1] if lst[0] == "slice" else lst[3])
                    while nxt[0] == "call" and nxt[1] == ("builtin", "enumerate"):
                        nxt = fl.strip(nxt[2][0])
                    lst = nxt
                result = (lst, v[1][1], e)
    if result is None:
        raise AnalysisBroken("the preprocessed text is not the join of a list")
    res, sep, e = result
    r.check(sep == C("\n"), "line-count", "lines are joined by newlines", "joined by %s" % show(sep), where(e))
    node = None
    for x in fl.iterends:
        if x.loops[-1][0] == ln.site:
            node = x.loops[-1][1]
            it = x.loops[-1][2]
    # the lines: all of them, in order
    base = it
    while base is not None and base[0] == "call" and base[1][0] == "builtin" and base[1][1] in (
            "enumerate", "iter", "list", "tuple", "range", "len") and base[2]:
        base = base[2][0]
    ok = base is not None and base[0] == "call" and base[1][0] == "method" and (
        base[1][2] == "splitlines" or base[1][2] == "split" and base[2][:1] == (C("\n"),) and len(base[2]) == 1)
    r.check(ok, "line-count", "all the lines are read in order", "the loop runs over %s" % show(it or NONE)[:80],
            "%s:%d" % (ln.f.module.rel, node.lineno))
    lines = base

    def growth(events, depth):
        """Lines added on the path; None when unknown."""
        n = 0
        for x in events:
            if x.kind != "mutate" or fl.strip(x.target) != res:
                continue
            if len(x.loops) > depth:
                return None
            if x.how == "append":
                n += 1
            elif x.how == "setitem":
                continue
            elif x.how in ("extend", "__iadd__", "augassign") and x.args and (
                    x.args[0][0] in ("tuple", "list")):
                n += len(x.args[0][1])
            elif x.how in ("extend", "__iadd__", "augassign") and x.args and x.args[0][0] == "obj" and (
                    x.state.get((x.args[0], "#items")) is not None) and not x.state.get((x.args[0], "#open")):
                n += len(x.state[(x.args[0], "#items")])
            else:
                return None
        return n

    # or the lines are replaced in place
    inplace = res == fl.strip(lines) if lines is not None else False
    want = 0 if inplace else 1
    bad = None
    for x in ln.paths:
        g = growth(x.events, len(x.end.loops))
        if g != want:
            bad = ("%s lines are added" % (g if g is not None else "an unknown number of"), x)
            break
    r.check(not bad, "line-count", "one output line per line over %d paths" % len(ln.paths),
            bad and "%s for %s" % (bad[0], ", ".join(ln.possible(bad[1]))[:60]) or "",
            where(bad[1].events[-1] if bad and bad[1].events else e))
    early = [x for x in fl.iterexits if x.loops[-1][0] == ln.site]
    r.check(not early, "line-count", "the loop ends after the last line",
            "the loop is left early", where(early[0]) if early else "")
    # nothing is added outside of the loop
    outside = [x for x in fl.events if x.kind == "mutate" and fl.strip(x.target) == res
               and not any(y[0] == ln.site for y in x.loops)]
    r.check(not outside, "line-count", "no line is added outside of the loop", "", where(outside[0]) if outside else "")

    # -- the records
    idx = None
    k = None
    n_rec = 0
    start = None
    for x in fl.events:
        if x.kind != "mutate" or not mentions(x.target, PACK):
            continue
        t = fl.strip(x.target)
        if t == PACK:
            good = x.how == "setitem" and x.args[0] == path and not x.loops
            r.check(good, "record", "the records of a file start anew",
                    "%s of the table of records" % x.how, where(x))
            if good:
                v = fl.strip(x.args[1])
                its = x.state.get((v, "#items")) if v[0] == "obj" else None
                if its is None and v[0] in ("list", "tuple") and isinstance(v[1], tuple):
                    its = v[1]
                for y in its or ():
                    if y[0] == "tuple" and len(y[1]) == 2:
                        r.check(y[1][1] == NONE, "record", "a file starts with the default packing",
                                "%s" % show(y[1][1])[:60], where(x))
            start = x
            continue
        if fl.strip(t[1]) != PACK or t[2] != path:
            r.bad("record", "records belong to the file processed", "recorded in %s" % show(t), where(x))
            continue
        n_rec += 1
    recs = [(x, y) for x in ln.paths for y in x.events if y.kind == "mutate" and is_rec(fl, y, path, start)]
    for x, y in recs:
        if y.how != "append" or y.args[0][0] != "tuple" or len(y.args[0][1]) != 2:
            r.bad("record", "a record is a line and a value", "%s %s" % (y.how, show(y.args[0]) if y.args else ""), where(y))
            continue
        i = y.args[0][1][0]
        cands = [z for z in subterms(i) if z[0] in ("idx", "phi")]
        o = None
        for z in cands:
            if z[0] == "idx" and fl.strip(z[1]) == fl.strip(lines):
                o = offset(i, z)
            elif z[0] == "phi" and counter(fl, ln, z) is not None:
                o = offset(i, z)
                o = None if o is None else o + counter(fl, ln, z)
        if o is None:
            r.bad("record", "the line of the directive is recorded", "recorded %s" % show(i), where(y))
            continue
        r.check(k is None or k == o, "record", "the line of the directive is recorded", "different offsets", where(y))
        k = o
    if not recs or start is None:
        raise AnalysisBroken("no record of the packing found")
    # every path which recognised the directive records it
    miss = None
    for x in ln.paths:
        if "pragma" not in ln.possible(x):
            continue
        got = [c for c, v in x.conds.items() if v and c[0] == "call" and c != ln.match and is_pack(c)]
        got += [o for c, v in x.conds.items() if not v and c[0] == "is" and NONE in c[1:3]
                for o in c[1:3] if o != ln.match and is_pack(o)]
        if got and not any(y.kind == "mutate" and is_rec(fl, y, path, start) for y in x.events):
            miss = x
    r.check(miss is None, "record", "every packing directive is recorded", "one path does not",
            where(miss.end) if miss else "")
    return k if k is not None else 0


def is_pack(t):
    return t[0] == "call" and any(is_const(z) and isinstance(z[2], str) and "pack" in z[2] for z in subterms(t))


def is_rec(fl, y, path, start):
    t = fl.strip(y.target)
    if t[0] == "item" and fl.strip(t[1]) == PACK:
        return True
    return start is not None and fl.strip(start.args[1]) == t


def counter(fl, ln, z):
    """A variable counting the lines: its offset to the index, else None."""
    init = fl.phi_init.get((z[1], z[2]))
    if init is None or not is_const(init) or not isinstance(init[2], int):
        return None
    for x in ln.paths:
        if x.end.value.get(z[2]) != ("bin", "Add", z, C(1)):
            return None
    return init[2]


def lookup(ctx, k):
    r = ctx.r
    f = ctx.method(ctx.CParser, "packing_at")
    fl = ctx.flow(f, key="c09", implicit=False)
    line = ("param", f.params[1])
    P = ("item", PACK, ("attr", SELF, "current_file"))

    def records(it):
        """(iterated forward?) for an iteration over the records, else None."""
        fwd = True
        it = fl.strip(it)
        while True:
            if it == P:
                return fwd
            if it[0] == "call" and it[1] == ("method", fl.strip(it[1][1]) if it[1][0] == "method" else 0, "copy"):
                it = fl.strip(it[1][1])
            elif it[0] == "call" and it[1][0] == "builtin" and it[2] and it[1][1] in ("list", "tuple", "iter", "reversed"):
                if it[1][1] == "reversed":
                    fwd = not fwd
                it = fl.strip(it[2][0])
            elif it[0] == "slice" and it[2:4] == (NONE, NONE):
                if it[4] == C(-1):
                    fwd = not fwd
                it = fl.strip(it[1])
            else:
                return None

    bad = []

    def applies(conds, e):
        """True/False when the record is known to precede the line, None if not."""
        out = None
        r0 = ("item", e, C(0))
        for a, v in (conds.items() if isinstance(conds, dict) else conds):
            if a[0] not in ("lt", "eq") or not mentions(a, r0):
                continue
            if a[0] == "eq":
                bad.append("the lines are compared for equality")
                continue
            a1, a2 = offset(a[1], r0), offset(a[2], line)
            if a1 is not None and a2 is not None:
                # i + k + a1 < L + a2  <=>  i + t <= L
                t = k + a1 - a2 + 1
                out = v
            else:
                b1, b2 = offset(a[1], line), offset(a[2], r0)
                if b1 is None or b2 is None:
                    bad.append("the comparison %s is not understood" % show(a))
                    continue
                # L + b1 < r + b2 is the negation of  i + k + b2 <= L + b1
                t = k + b2 - b1
                out = not v
            if t not in (1, 2):
                bad.append("a directive %s line%s %s the definition is considered" % (
                    abs(1 - t), "" if abs(1 - t) == 1 else "s", "after" if t < 1 else "too far before"))
        return out

    n = 0
    for s, o in fl.outcomes:
        if o[0] != "return":
            continue
        v = o[1]
        n += 1
        if v[0] == "phi" and v[1] in {x.loops[-1][0] for x in fl.iterends}:
            ends = [x for x in fl.iterends if x.loops[-1][0] == v[1]]
            exits = [x for x in fl.iterexits if x.loops[-1][0] == v[1]]
            it = ends[0].loops[-1][2]
            fwd = records(it) if it is not None else None
            if fwd is None:
                bad.append("the records searched are %s" % show(it or NONE)[:60])
                continue
            if fl.phi_init.get((v[1], v[2])) != NONE:
                bad.append("the packing without directive is %s" % show(fl.phi_init.get((v[1], v[2])) or NONE))
            if not fwd:
                bad.append("the first directive of the file wins")
            took = False
            for x in ends + exits:
                e = elem(x, it)
                ap = applies(x.conds, e)
                val = x.value.get(v[2])
                if x in exits and x.args[1] != ("break",):
                    if x.args[1][0] == "return" and x.args[1][1] == v and ap is False:
                        continue
                    bad.append("the search ends before the last directive")
                    continue
                if ap is True:
                    took = True
                    if val != ("item", e, C(1)):
                        bad.append("a directive preceding the definition is not taken")
                    if x in exits:
                        bad.append("the search ends at the first directive")
                elif val != v:
                    bad.append("a directive is taken without comparing the lines")
            if not took:
                bad.append("no directive is ever taken")
        elif v[0] == "item" and v[2] == C(1) and v[1][0] == "elem":
            e = v[1]
            fwd = records(e[1])
            ap = applies(s.conds, e)
            if fwd is None:
                bad.append("the records searched are %s" % show(e[1])[:60])
            elif fwd:
                bad.append("the first directive of the file wins")
            if ap is not True:
                bad.append("a directive is taken without preceding the definition")
        elif v == NONE:
            # no record applies
            continue
        else:
            comp = [x for x in subterms(v) if x[0] == "comp" and records(x[3]) is not None]
            if len(comp) == 1:
                c = comp[0]
                fwd = records(c[3])
                e = [x for x in subterms(c) if x[0] == "elem" and x[1] == c[3]]
                ap = applies(c[4] if isinstance(c[4], frozenset) else (), e[0] if e else NONE)
                if ap is not True:
                    bad.append("a directive is taken without preceding the definition")
                last = v[0] == "item" and (
                    v[2] == C(-1) and fwd or v[2] == C(0) and not fwd
                    or v[2] == C(1) and v[1][0] == "item" and (v[1][2] == C(-1) and fwd or v[1][2] == C(0) and not fwd))
                nxt = v[0] == "call" and v[1] == ("builtin", "next") and not fwd
                if not (last or nxt):
                    bad.append("the value returned is not the last directive's")
            elif not mentions(v, line) and not any(mentions(a, line) for a in s.conds):
                bad.append("the line of the definition is not considered")
            else:
                raise AnalysisBroken("the packing returned (%s) is not understood" % show(v)[:80])
    for x in bad[:1]:
        r.bad("lookup", "last directive before the line", x, "%s:%d" % (f.module.rel, f.node.lineno))
    if not bad:
        r.ok("lookup", "last directive before the line")
    if not n:
        raise AnalysisBroken("the packing lookup returns nothing")


def elem(x, it):
    for v in list(x.value.values()) + list(x.conds):
        for z in subterms(v):
            if z[0] == "elem" and z[1] == it:
                return z
    return NONE


def structs(ctx):
    p, r = ctx.p, ctx.r
    names = {c.qual for c in p.classes.values() if c.name in ("Struct", "Union") and c.module.name == ctx.CParser.module.name}
    f = ctx.method(ctx.CParser, "process_struct")
    fl = ctx.flow(f, key="c09", implicit=False, max_states=60000,
                  opaque=lambda x: x.name in ("packing_at", "process_type", "add_def", "eval_expr", "process_declarator"))
    s, loc = ("param", f.params[1]), ("param", f.params[2])
    n = 0
    for e in fl.events:
        if e.kind != "call" or e.target[0] != "cls" or e.target[1] not in names:
            continue
        n += 1
        v = dict(e.kwargs or ()).get("pack", NONE)
        bad = None
        if not (v[0] == "call" and v[1][0] == "func" and p.functions[v[1][1]].name == "packing_at"):
            bad = "the packing is %s" % show(v)[:80]
        else:
            a = v[2][-1] if len(v[2]) > 1 else dict(v[3]).get("line", NONE)
            good = a[0] == "call" and a[1][0] == "ext" and a[1][1].split(".")[-1] == "lineno" and a[2][:2] == (loc, s)
            good = good or a[0] == "bin" and a[1] == "Add" and C(1) in a[2:4] and any(
                z[0] == "call" and z[1] == ("method", s, "count") and z[2][:1] == (C("\n"),) and z[2][-1] == loc
                and (len(z[2]) == 2 or z[2][1] == C(0)) and len(z[2]) == 3 for z in a[2:4])
            if not good:
                bad = "the packing is looked up at %s" % show(a)[:80]
        r.check(not bad, "structs", "%s: %s" % (f.qual, e.target[1]), bad or "", where(e))
    if not n:
        raise AnalysisBroken("no structure is created")
    r.floor("structs", 2)
