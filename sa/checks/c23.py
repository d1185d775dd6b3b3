"""Macros are expanded as they were defined."""

import re

from ..common import where
from ..flow import NONE, is_const, show, subterms
from .c08 import Lines

TITLE = "macros are expanded as defined, everything else is kept as it is"
RULES = (
    "every path through the loop expanding the macros of a line is followed: the text put in the result and the text left "
    "to scan, written as intervals of the line bounded by the match, are contiguous and cover it: nothing "
    "but the name of a macro (or a call of a function-like one) is replaced, by the text registered "
    "for that very name or the expansion of that very call; a call which fails, a string literal or any other name is kept; the "
    "scan goes on after what was replaced, never inside of it. The patterns found in the source, constants, "
    "match whole identifiers and whole string literals. In the definition of a function-like macro each occurrence of a parameter is "
    "replaced by a slot for the argument at the index of that parameter, the rest being kept with the characters special to "
    "the template escaped; a call fills the slots with the arguments in that order, after expanding macros in them, and gives back what follows the closing "
    "parenthesis. #define registers the text given under the name given, as object-like or function-like according to the "
    "presence of parameters; #undef removes both kinds; lines of active text are expanded."
)
ASSUMPTIONS = ("arguments of function-like macros hold no parentheses nor commas",
               "patterns which are constants of the source are evaluated on fixed probes")

SEARCH = ("search", "match")


def vals(it):
    """Variables of an iteration at its end."""
    return [(k, v) for k, v in it.value.items() if isinstance(k, str) and isinstance(v, tuple)]


def strip_ver(t):
    while isinstance(t, tuple) and t and t[0] == "ver":
        t = t[1]
    return t


class Scan:
    """Text of a line as intervals bounded by a match."""

    def __init__(self, fl, match, text, pos=None):
        self.fl, self.match, self.text, self.pos = fl, match, text, pos

    def index(self, t):
        """End point: 'cur', ('s', k), ('e', k) or 'end'."""
        t = strip_ver(t)
        if t == NONE:
            return None
        if self.pos is not None and t == self.pos:
            return "cur"
        if t[0] == "call" and t[1][0] == "method" and t[1][1] == self.match and t[1][2] in ("start", "end"):
            k = t[2][0][2] if t[2] and is_const(t[2][0]) else 0 if not t[2] else None
            return (t[1][2][0], k) if k is not None else None
        if t[0] == "item" and is_const(t[2]) and t[1][0] == "call" and t[1][1][0] == "method" and (
                t[1][1][1] == self.match and t[1][1][2] == "span"):
            a = t[1][2]
            k = a[0][2] if a and is_const(a[0]) else 0
            return ("se"[t[2][2]], k) if t[2][2] in (0, 1) else None
        if t[0] == "call" and t[1] == ("builtin", "len") and strip_ver(t[2][0]) == self.text:
            return "end"
        return None

    def group(self, t):
        """Number of the group of the match the term is."""
        t = strip_ver(t)
        if t[0] == "item" and is_const(t[2]):
            b = strip_ver(t[1])
            if b == self.match and isinstance(t[2][2], int):
                return t[2][2]
            if b[0] == "call" and b[1][0] == "method" and b[1][1] == self.match and b[1][2] == "groups":
                return t[2][2] + 1
        if t[0] == "call" and t[1][0] == "method" and t[1][1] == self.match and t[1][2] == "group":
            return t[2][0][2] if t[2] and is_const(t[2][0]) else 0
        return None

    def interval(self, t):
        """(from, to) of a piece of the text, or None."""
        t = strip_ver(t)
        if t == self.text and self.pos is None:
            return ("cur", "end")
        if t[0] == "slice" and strip_ver(t[1]) == self.text and t[4] == NONE:
            lo = self.index(t[2]) if t[2] != NONE else ("cur" if self.pos is None else "start")
            hi = self.index(t[3]) if t[3] != NONE else "end"
            if lo is None or hi is None:
                return None
            return (lo, hi)
        g = self.group(t)
        if g is not None and isinstance(g, int):
            return (("s", g), ("e", g))
        return None


def concat(t):
    """Pieces of a concatenation."""
    t = strip_ver(t)
    if t[0] == "fmt":
        first = t[1][0]
        rest = t[1][1:]
        if is_const(first) and isinstance(first[2], str) and rest and re.findall(r"\{\}|%s", first[2]) and (
                len(re.findall(r"\{\}|%s", first[2])) == len(rest)):
            out = []
            for i, x in enumerate(re.split(r"\{\}|%s", first[2])):
                if x:
                    out.append(("const", "str", x))
                if i < len(rest):
                    out += concat(rest[i])
            return out
        return [y for x in t[1] for y in concat(x)]
    if t[0] == "bin" and t[1] == "Add":
        return concat(t[2]) + concat(t[3])
    if t[0] == "const" and t[2] == "":
        return []
    if t[0] == "call" and t[1] == ("method", ("const", "str", ""), "join") and len(t[2]) == 1 and t[2][0][0] in (
            "tuple", "list") and isinstance(t[2][0][1], tuple):
        return [y for x in t[2][0][1] for y in concat(x)]
    return [t]


def regex_of(t):
    """Constant pattern of a compiled (or inline) regular expression."""
    for x in subterms(t):
        if x[0] == "call" and x[1][0] == "ext" and x[1][1].startswith("re.") and x[2]:
            return x[2][0]
    return None


def groups_equal(rx, probes):
    """Groups spanning the whole match for the probes."""
    out = None
    for text in probes:
        m = rx.search(text)
        if m is None:
            return set()
        g = {0} | {k for k in range(1, rx.groups + 1) if m.span(k) == m.span(0)}
        out = g if out is None else out & g
    return out or set()


def run(ctx):
    r = ctx.r
    expansion(ctx)
    definition(ctx)
    call(ctx)
    directives(ctx)
    registered(ctx)
    r.floor("text-kept", 3)


# -- expansion of a line -------------------------------------------------------


def opaque_for(f, *names):
    return lambda x: x.name in names and x.qual != f.qual


def find_match(fl, it):
    """(match, text, pos) used by an iteration."""
    m = rotated(fl, it)
    if m is not None:
        return m
    terms = [a for a in it.conds] + [e.value for e in it.trace if e.kind == "call" and e.value]
    for t in terms:
        for x in subterms(t):
            if x[0] == "call" and x[1][0] == "method" and x[1][2] in SEARCH and x[2] and regex_of(x[1][1]) is not None:
                return x, strip_ver(x[2][0]), strip_ver(x[2][1]) if len(x[2]) > 1 else None
            if x[0] == "call" and x[1][0] == "ext" and x[1][1] in ("re.search", "re.match") and len(x[2]) > 1:
                return x, strip_ver(x[2][1]), None
    return None


def rotated(fl, it):
    """The match is the one found at the end of the previous iteration."""
    site = it.loops[-1][0]
    for nm, v in vals(it):
        v = strip_ver(v)
        if not (v[0] == "call" and v[2]) or v == ("phi", site, nm):
            continue
        if v[1][0] == "method" and v[1][2] in SEARCH and regex_of(v[1][1]) is not None:
            a = v[2]
        elif v[1][0] == "ext" and v[1][1] in ("re.search", "re.match") and len(v[2]) > 1:
            a = v[2][1:]
        else:
            continue
        PATTERNS[("phi", site, nm)] = regex_of(v)
        if len(a) > 1:
            for n2, v2 in vals(it):
                if n2 != nm and strip_ver(v2) == strip_ver(a[1]):
                    return ("phi", site, nm), strip_ver(a[0]), ("phi", site, n2)
            continue
        for n2, v2 in vals(it):
            if n2 != nm and strip_ver(v2) == strip_ver(a[0]):
                return ("phi", site, nm), ("phi", site, n2), None
    return None


PATTERNS = {}  # of matches kept from one iteration to the next


def expansion(ctx):
    p, r = ctx.p, ctx.r
    f = ctx.method(ctx.CParser, "expand_macros")
    fl = ctx.flow(f, key="c23", implicit=True, opaque=opaque_for(f, "expand_macros", "expand_fn_macro"))
    its = []
    for it in fl.iterends:
        m = find_match(fl, it)
        if m is not None:
            its.append((it, m))
    if not its:
        return r.skip("text-kept", f.qual, "the loop expanding macros has another form")
    seen = set()
    for it, (match, text, pos) in its:
        sc = Scan(fl, match, text, pos)
        site = it.loops[-1][0]
        pat = PATTERNS.get(match) or regex_of(match)
        rx = None
        if pat is not None and is_const(pat):
            try:
                rx = re.compile(pat[2])
            except re.error:
                r.bad("pattern", f.qual, "the pattern %r cannot be compiled" % pat[2], f.qual)
                return
        if rx is None:
            return r.skip("text-kept", f.qual, "the pattern used to find macros is not constant")
        if pat not in seen:
            seen.add(pat)
            pattern(ctx, f, rx)
        same = groups_equal(rx, ["foo", "a + b1_", "(X)"])
        kind, name = category(it, sc, fl)
        if kind is None:
            continue
        # 0 and the groups of the identifier are the same span when an identifier was matched
        ident = kind in ("macro", "fn", "failed")

        def canon(ix):
            if isinstance(ix, tuple):
                if ix[1] == 0 or ident and ix[1] in same:
                    return ix[0]
                return "%s%s" % ix
            return ix

        out = output(it, sc, fl, site)
        left = remaining(it, sc, fl, site)
        if out is None or left is None:
            return r.skip("text-kept", f.qual, "the text kept is computed in another way")
        desc = "%s: %s" % (f.qual, {"macro": "object-like macro", "fn": "function-like macro",
                                    "failed": "faulty call", "other": "anything else"}[kind])
        seq = []
        bad = None
        for t in out:
            iv = sc.interval(t)
            if iv is not None:
                a, b = canon(iv[0]), canon(iv[1])
                if seq and isinstance(seq[-1], list) and seq[-1][1] == a:
                    seq[-1][1] = b
                else:
                    seq.append([a, b])
            else:
                seq.append(t)
        if kind == "macro":
            if not (len(seq) == 2 and seq[0] == ["cur", "s"] and seq[1] and value_of(seq[1], name, "macros", sc)):
                bad = "the result gets %s" % descr(seq)
            elif not after(left, sc, canon):
                bad = "the scan goes on with %s" % show(left)[:80]
        elif kind == "fn":
            c = seq[1] if len(seq) == 2 else None
            ok = seq and seq[0] == ["cur", "s"] and c and isinstance(c, tuple) and c[0] == "item" and c[2] == ("const", "int", 0)
            ok = ok and is_expansion(p, strip_ver(c[1]), sc, name, canon)
            if not ok:
                bad = "the result gets %s" % descr(seq)
            elif strip_ver(left) != ("item", c[1], ("const", "int", 1)):
                bad = "the scan goes on with %s" % show(left)[:80]
        else:
            if not (len(seq) == 1 and seq[0] == ["cur", "e"]):
                bad = "the result gets %s" % descr(seq)
            elif not after(left, sc, canon):
                bad = "the scan goes on with %s" % show(left)[:80]
        r.check(bad is None, "text-kept", desc, bad or "", f.qual)
    # the end of the line
    for s, o in fl.outcomes:
        if o[0] != "return":
            continue
        tail(ctx, f, fl, s, o, its)
    loops = {it.loops[-1][0] for it, _ in its}
    for e in fl.iterexits:
        if e.loops and e.loops[-1][0] in loops:
            ms = [m for it, (m, _, _) in its]
            ok = any(a in ms and not v or a[0] == "is" and v and NONE in a[1:] and any(x in ms for x in a[1:])
                     for a, v in e.conds.items())
            r.check(ok, "text-kept", "%s: end of the scan" % f.qual, "the scan stops before the end of the text", where(e))


def descr(seq):
    return " + ".join("[%s:%s]" % tuple(map(str, x)) if isinstance(x, list) else show(x)[:60] for x in seq) or "nothing"


def category(it, sc, fl):
    """What the path is about, and the name looked up."""
    pos = {}
    name = None
    for a, v in it.conds.items():
        if a[0] == "in" and sc.group(a[1]) is not None:
            tab = table(a[2])
            if tab:
                pos[tab] = v
                name = strip_ver(a[1])
    if pos.get("macros"):
        return "macro", name
    if pos.get("fnmacros"):
        return ("failed" if any(e.kind == "handler" for e in it.trace[len(it.args[0]):]) else "fn"), name
    if pos.get("macros") is False and pos.get("fnmacros") is False or unnamed(it, sc):
        return "other", name
    return None, None


def unnamed(it, sc):
    return any(a[0] == "is" and v and NONE in a[1:] and any(sc.group(x) is not None for x in a[1:])
               for a, v in it.conds.items())


def table(t):
    t = strip_ver(t)
    if t[0] == "item" and is_const(t[2]) and t[2][2] in ("macros", "fnmacros"):
        b = strip_ver(t[1])
        if b[0] == "attr" and b[2] == "defs":
            return t[2][2]
    return None


def value_of(t, name, tab, sc):
    t = strip_ver(t)
    if t[0] == "item" and strip_ver(t[2]) == name or t[0] == "item" and sc.group(t[2]) is not None and (
            sc.group(t[2]) == sc.group(name)):
        return table(t[1]) == tab
    if t[0] == "call" and t[1][0] == "method" and t[1][2] == "get" and t[2] and strip_ver(t[2][0]) == name:
        return table(t[1][1]) == tab
    return False


def is_expansion(p, t, sc, name, canon):
    if not (t[0] == "call" and t[1][0] == "func" and p.functions[t[1][1]].name == "expand_fn_macro"):
        return False
    f = p.functions[t[1][1]]
    got = dict(zip(f.params, t[2]))
    got.update(dict(t[3] or ()))
    n, tx = (got.get(f.params[1]), got.get(f.params[2])) if len(f.params) > 2 else (None, None)
    if n is None or tx is None or sc.group(n) != sc.group(name):
        return False
    iv = sc.interval(tx)
    return iv is not None and canon(iv[0]) == "e" and iv[1] == "end"


def after(left, sc, canon):
    """What is left to scan starts at the end of the match."""
    if sc.pos is not None:
        ix = sc.index(left)
        return ix is not None and canon(ix) == "e"
    iv = sc.interval(left)
    return iv is not None and canon(iv[0]) == "e" and iv[1] == "end"


def joined(fl):
    """Lists joined by the function, accumulators returned."""
    out = set()
    for s, o in fl.outcomes:
        if o[0] == "return":
            for t in concat(o[1]):
                if t[0] == "call" and t[1][0] == "method" and t[1][2] == "join" and len(t[2]) == 1:
                    out.add(strip_ver(t[2][0]))
                elif t[0] == "phi":
                    out.add(t)
    return out


def output(it, sc, fl, site):
    """Pieces added to the result by the path."""
    out = []
    known = False
    outs = joined(fl)
    for e in it.trace[len(it.args[0]):]:
        if e.kind == "mutate" and e.how in ("append", "extend") and strip_ver(e.target) in outs:
            known = True
            if e.how == "append":
                out += concat(e.args[0])
            else:
                a = e.args[0]
                if a[0] not in ("tuple", "list") or not isinstance(a[1], tuple):
                    return None
                for x in a[1]:
                    out += concat(x)
    for nm, v in vals(it):
        ph = ("phi", site, nm)
        if ph in outs and ph != sc.text:
            ps = concat(v)
            if ps[0] != ph:
                return None
            known = True
            out += ps[1:]
    if any(o[0] == "obj" for o in outs):
        known = True
    return out if known else None


def remaining(it, sc, fl, site):
    """Value of the text left to scan (or of the position)."""
    want = sc.pos if sc.pos is not None else sc.text
    if want[0] != "phi":
        return None
    return it.value.get(want[2])


def tail(ctx, f, fl, s, o, its):
    r = ctx.r
    it, (match, text, pos) = its[0]
    sc = Scan(fl, match, text, pos)
    ps = concat(o[1])
    out = []
    for t in ps:
        if t[0] == "call" and t[1][0] == "method" and t[1][2] == "join" and len(t[2]) == 1:
            sep = t[1][1]
            if not (is_const(sep) and sep[2] == ""):
                r.bad("text-kept", "%s: result" % f.qual, "the pieces are joined by %s" % show(sep), f.qual)
                return
            lst = strip_ver(t[2][0])
            n = max((len(i.args[0]) for i, _ in its), default=0)
            for e in s.trace[n:]:
                if e.kind == "mutate" and e.how == "append" and strip_ver(e.target) == lst and not e.loops:
                    out += concat(e.args[0])
            if lst[0] == "list" and isinstance(lst[1], tuple):
                out += list(lst[1])
        elif t[0] != "phi" or sc.interval(t) is not None:
            out.append(t)
    ok = len(out) == 1 and sc.interval(out[0]) in (("cur", "end"),)
    r.check(ok, "text-kept", "%s: end of the line" % f.qual,
            "after the last match the result gets %s" % (" + ".join(show(x)[:60] for x in out) or "nothing"), f.qual)


PROBES = [
    # text, spans of the identifiers found, string literals being skipped
    ('foo + bar', ["foo", "bar"]),
    ('x1_y(2)', ["x1_y", "2"]),
    ('"foo" bar', ['"foo"', "bar"]),
    (r'"a\"b" c', [r'"a\"b"', "c"]),
    (r'"a\\" c', [r'"a\\"', "c"]),
    (r'"a\\" c "d"', [r'"a\\"', "c", '"d"']),
    ('_a"b c"_d', ["_a", '"b c"', "_d"]),
    ('""a', ['""', "a"]),
]


def pattern(ctx, f, rx):
    for text, want in PROBES:
        got = []
        for m in rx.finditer(text):
            got.append(m.group(0))
        names = [w for w in want if w[0] != '"' and not w[0].isdigit()]
        got_names = [g for g in got if g and g[0] != '"' and not g[0].isdigit()]
        ctx.r.check(names == got_names, "pattern", "%s: %s" % (f.qual, text),
                    "finds %s as names" % ", ".join(got_names), f.qual)


# -- definition of function-like macros -------------------------------------------


def unescape(t):
    """(text, escaped characters) of x.replace("{", "{{")..."""
    esc = []
    t = strip_ver(t)
    while t[0] == "call" and t[1][0] == "method" and t[1][2] == "replace" and len(t[2]) == 2 and all(map(is_const, t[2])):
        esc.append((t[2][0][2], t[2][1][2]))
        t = strip_ver(t[1][1])
    return t, sorted(esc)


ESC = [("{", "{{"), ("}", "}}")]


def definition(ctx):
    r = ctx.r
    f = ctx.CParser.find("compile_fn_macro")
    if f is None or len(f.params) < 3:
        return
    fl = ctx.flow(f, key="c23", implicit=False)
    body, args = ("param", f.params[1]), ("param", f.params[2])
    its = []
    for it in fl.iterends:
        for x in [y for e in it.trace if e.kind == "call" and e.value for y in subterms(e.value)] + [
                y for a in it.conds for y in subterms(a)]:
            if x[0] == "elem" and strip_ver(x[1])[0] == "call" and strip_ver(x[1])[1][-1] in ("finditer", "re.finditer"):
                its.append((it, x))
                break
    if not its:
        return
    rets = [o[1] for s, o in fl.outcomes if o[0] == "return"]
    if any(t[0] != "tuple" or len(t[1]) != 2 for t in rets) or not rets:
        return
    texts = {strip_ver(x[2][0]) for t in rets for x in concat(t[1][0])
             if x[0] == "call" and x[1][0] == "method" and x[1][2] == "join" and len(x[2]) == 1}
    accs = {x for t in rets for x in concat(t[1][0]) if x[0] == "phi"}
    orders = {strip_ver(t[1][1]) for t in rets}
    orders |= {strip_ver(o[2][0]) for o in orders if o[0] == "call" and o[1] in (("builtin", "tuple"), ("builtin", "list")) and o[2]}
    # the pattern finds the parameters as whole identifiers, outside of string literals
    pat = regex_of(its[0][1])
    if pat is not None and pat[0] == "fmt":
        ps = [x for x in concat(pat)]
        lit = "".join(x[2] if is_const(x) else "foo|bar1" for x in ps)
        mid = [x for x in ps if not is_const(x)]
        ok = len(mid) == 1 and any(y == args for y in subterms(mid[0])) and any(
            is_const(y) and y[2] == "|" for y in subterms(mid[0]))
        r.check(ok, "parameters", "%s: pattern" % f.qual, "is not made of the parameters", f.qual)
        try:
            rx = re.compile(lit)
        except re.error:
            r.bad("parameters", "%s: pattern" % f.qual, "cannot be compiled", f.qual)
            return
        for text, want in (("foo+bar1", ["foo", "bar1"]), ("afoo food foo_ _foo", []), ('"foo" bar1', ["bar1"]),
                           (r'"\"foo" foo', ["foo"]), (r'"\\" foo "foo"', ["foo"]), ("x##foo", ["foo"]), ("(foo)*(foo)", ["foo", "foo"])):
            got = [m.group(0) for m in rx.finditer(text) if not m.group(0).startswith('"')]
            r.check(got == want, "parameters", "%s: %s" % (f.qual, text), "finds %s" % (", ".join(got) or "nothing"), f.qual)
        same = groups_equal(rx, ["foo", "(bar1)"])
    else:
        return
    for it, m in its:
        site = it.loops[-1][0]
        posn = None
        for nm, v in vals(it):
            if v == ("phi", site, nm) or v[0] == "call" and v[1][0] == "method" and v[1][2] in ("start", "end") and strip_ver(v[1][1]) == m:
                ini = fl.phi_init.get((site, nm))
                if ini == ("const", "int", 0) or ini is None and v[0] == "call":
                    posn = nm
                    break
        if posn is None:
            return
        sc = Scan(fl, m, body, ("phi", site, posn))
        ap, order = [], []
        for e in it.trace[len(it.args[0]):]:
            if e.kind == "mutate" and e.how == "append":
                if strip_ver(e.target) in texts:
                    ap += concat(e.args[0])
                elif strip_ver(e.target) in orders:
                    order.append(strip_ver(e.args[0]))
        for nm, v in vals(it):
            if ("phi", site, nm) in accs:
                ap += concat(v)[1:]
        skip = None
        for a, v in it.conds.items():
            g = [x for x in a[1:] if isinstance(x, tuple) and sc.group(x) is not None] if a[0] == "is" and NONE in a[1:] else []
            if g:
                skip = v
            elif sc.group(a) is not None:
                skip = not v
            elif a[0] == "in" and sc.group(a[1]) is not None and strip_ver(a[2]) == args:
                skip = not v
        if skip is None:
            continue

        def canon(ix):
            if isinstance(ix, tuple):
                return ix[0] if ix[1] in same else "%s%s" % ix
            return ix

        if skip:
            ok = not ap and not order and it.value[posn] == ("phi", site, posn)
            r.check(ok, "parameters", "%s: string literal" % f.qual, "is not kept in the text", f.qual)
            continue
        bad = None
        if len(ap) != 2 or ap[1] != ("const", "str", "{}"):
            bad = "the text gets %s" % " + ".join(show(x)[:50] for x in ap)
        else:
            t, esc = unescape(ap[0])
            iv = sc.interval(t)
            if esc != ESC:
                bad = "braces of the text are not escaped"
            elif iv is None or iv[0] != "cur" or canon(iv[1]) != "s":
                bad = "the text before the parameter is %s" % show(t)[:60]
        if bad is None:
            o = order[0] if len(order) == 1 else None
            ok = o is not None and o[0] == "call" and o[1][0] == "method" and o[1][2] == "index" and (
                strip_ver(o[1][1]) == args) and len(o[2]) == 1 and sc.group(o[2][0]) in same
            ok = ok or o is not None and o[0] == "item" and sc.group(o[2]) in same  # table of the positions
            if not ok:
                bad = "the index recorded is %s" % (" and ".join(show(x)[:60] for x in order) or "none")
            elif canon(sc.index(it.value[posn]) or "?") != "e":
                bad = "the text goes on at %s" % show(it.value[posn])[:60]
        r.check(bad is None, "parameters", "%s: parameter" % f.qual, bad or "", f.qual)
    # the end of the text
    it, m = its[0]
    for s, o in fl.outcomes:
        if o[0] != "return":
            continue
        out = []
        for e in s.trace:
            if e.kind == "mutate" and e.how == "append" and strip_ver(e.target) in texts and not e.loops:
                out += concat(e.args[0])
        for x in concat(o[1][1][0]):
            if x[0] != "phi" and not (x[0] == "call" and x[1][0] == "method" and x[1][2] == "join"):
                out.append(x)
        ok = len(out) == 1
        if ok:
            t, esc = unescape(out[0])
            ok = esc == ESC and t[0] == "slice" and strip_ver(t[1]) == body and t[2][0] == "phi" and t[3] == NONE
        r.check(ok, "parameters", "%s: end of the text" % f.qual,
                "the text after the last parameter is %s" % (" + ".join(show(x)[:60] for x in out) or "lost"), f.qual)


# -- call of function-like macros ----------------------------------------------------


def call(ctx):
    p, r = ctx.p, ctx.r
    f = ctx.method(ctx.CParser, "expand_fn_macro")
    if len(f.params) < 3:
        return
    fl = ctx.flow(f, key="c23", implicit=False, opaque=opaque_for(f, "expand_macros"))
    name, text = ("param", f.params[1]), ("param", f.params[2])
    for s, o in fl.outcomes:
        if o[0] != "return":
            continue
        t = strip_ver(o[1])
        if t[0] != "tuple" or len(t[1]) != 2:
            return
        new, end = map(strip_ver, t[1])
        # what follows the first closing parenthesis
        e = end
        ok = None
        if e[0] == "item" and e[1][0] == "call" and e[1][1][0] == "method" and strip_ver(e[1][1][1]) == text:
            c = e[1]
            meth, a = c[1][2], c[2]
            if a and a[0] == ("const", "str", ")"):
                if meth == "split":
                    ok = len(a) == 2 and a[1] == ("const", "int", 1) and e[2] in (("const", "int", 1), ("const", "int", -1))
                elif meth == "partition":
                    ok = e[2] in (("const", "int", 2), ("const", "int", -1))
                else:
                    ok = False
            else:
                ok = False
        elif is_const(e):
            ok = False
        elif e[0] == "slice" and strip_ver(e[1]) == text:
            ok = e[2][0] == "bin" and e[2][1] == "Add" and ("const", "int", 1) in e[2][2:] and e[3] == NONE and any(
                x[0] == "call" and x[1][0] == "method" and x[1][2] in ("index", "find") and x[2][0] == ("const", "str", ")")
                for x in e[2][2:])
        if ok is not None:
            r.check(ok, "arguments", "%s: rest of the line" % f.qual, "is %s" % show(end)[:80], f.qual)
        # the template of that macro filled with the arguments
        if not (new[0] == "call" and new[1][0] == "method" and new[1][2] == "format"):
            continue
        tpl = strip_ver(new[1][1])
        ok = tpl[0] == "item" and tpl[2] == ("const", "int", 0) and defn(tpl[1], name)
        r.check(ok, "arguments", "%s: text" % f.qual, "is %s, not the one of the macro" % show(tpl)[:60], f.qual)
        a = new[2]
        if not (len(a) == 1 and a[0][0] == "star"):
            continue
        c = strip_ver(a[0][1])
        if c[0] == "call" and c[1] in (("builtin", "map"),) and len(c[2]) == 2:
            g, it = c[2]
            ok = g[0] == "attr" and g[2] == "__getitem__" and order_of(it, name)
            r.check(ok, "arguments", "%s: slots" % f.qual, "are filled by %s" % show(c)[:80], f.qual)
            continue
        if c[0] != "comp":
            continue
        el = [x for x in subterms(c) if x[0] == "item" and strip_ver(x[2])[0] == "elem" and order_of(strip_ver(x[2])[1], name)]
        filt = any(isinstance(x, tuple) and x and x[0] in ("if", "clause") for x in c[3:])
        r.check(bool(el), "arguments", "%s: slots" % f.qual, "are not filled by the argument at the index recorded", f.qual)
        if not el:
            continue
        lst = strip_ver(el[0][1])
        calls = [x for x in subterms(lst) if x[0] == "call" and x[1][0] == "func" and p.functions[x[1][1]].name == "expand_macros"]
        calls += [e.value for e in s.trace if lst[0] == "obj" and e.kind == "mutate" and e.how == "append" and strip_ver(
            e.target) == lst for x in subterms(e.args[0]) if x[0] == "call" and x[1][0] == "func"
            and p.functions[x[1][1]].name == "expand_macros"]
        if lst[0] in ("comp",) or calls:
            r.check(bool(calls), "arguments", "%s: macros in the arguments" % f.qual, "are not expanded", f.qual)
        sp = [x for x in subterms(lst) if x[0] == "call" and x[1][0] == "method" and x[1][2] == "split"
              and x[2][:1] == (("const", "str", ","),)]
        if sp:
            r.check(all(len(x[2]) == 1 for x in sp), "arguments", "%s: separation" % f.qual,
                    "is limited to some of the arguments", f.qual)
            inner = strip_ver(sp[0][1][1])
            ok = None
            if inner[0] == "item" and inner[1][0] == "call" and inner[1][1][0] == "method" and inner[1][2][:1] == (("const", "str", "("),):
                m = inner[1]
                ok = m[1][2] == "split" and m[2][1:] == (("const", "int", 1),) and inner[2] in (("const", "int", 1), ("const", "int", -1)) or (
                    m[1][2] == "partition" and inner[2] in (("const", "int", 2), ("const", "int", -1)))
                b = strip_ver(m[1][1])
                if ok and b[0] == "item" and b[1][0] == "call" and b[1][1][0] == "method":
                    ok = b[2] == ("const", "int", 0) and b[1][2][:1] == (("const", "str", ")"),) and strip_ver(b[1][1][1]) == text
            if ok is not None:
                r.check(ok, "arguments", "%s: text between parentheses" % f.qual, "is %s" % show(inner)[:80], f.qual)
        rev = [x for x in subterms(lst) if x[0] == "call" and x[1] in (("builtin", "reversed"), ("builtin", "sorted"), ("builtin", "set"))
               or x[0] == "slice" and x[4] != NONE]
        r.check(not rev and not filt, "arguments", "%s: order" % f.qual, "the arguments are reordered", f.qual)


def defn(t, name):
    t = strip_ver(t)
    return t[0] == "item" and table(t[1]) == "fnmacros" and strip_ver(t[2]) == name


def order_of(t, name):
    t = strip_ver(t)
    return t[0] == "item" and t[2] == ("const", "int", 1) and defn(t[1], name)


# -- directives ------------------------------------------------------------------------


def directives(ctx):
    p, r = ctx.p, ctx.r
    ln = Lines(ctx)
    fl = ln.fl
    undone = {}
    for x in ln.paths:
        poss = ln.possible(x)
        if poss == ["%text"]:
            for e in x.events:
                if e.kind == "call" and e.target[0] == "func" and p.functions[e.target[1]].name == "expand_macros":
                    f = p.functions[e.target[1]]
                    got = dict(zip(f.params, e.args))
                    got.update(dict(e.kwargs or ()))
                    a = strip_ver(got.get(f.params[1], NONE))
                    r.check(a == strip_ver(ln.line), "lines-expanded", "%s: text" % ln.f.qual,
                            "%s is expanded, not the line" % show(a)[:60], where(e))
        if poss == ["undef"]:
            kinds = {}
            for e in x.events:
                for k in removed(p, e):
                    kinds[k] = e
            if kinds:
                # nothing to remove where the name is known not to be there
                for a, v in x.end.conds.items():
                    if a[0] == "in" and not v:
                        t = strip_ver(a[2])
                        if t[0] == "item" and strip_ver(t[1]) == ("attr", ("param", "self"), "defs") and is_const(t[2]):
                            kinds.setdefault(t[2][2], x.end)
                undone.setdefault(frozenset(kinds), list(kinds.values())[0])
    for kinds, e in undone.items():
        r.check({"macros", "fnmacros"} <= kinds or "?" in kinds, "undef", "%s: #undef" % ln.f.qual,
                "only removes from %s" % ", ".join(sorted(kinds)), where(e))
    if r.count("lines-expanded") == 0 and not any(
            e.kind == "call" and e.target[0] == "func" and p.functions[e.target[1]].name == "expand_macros"
            for e in fl.events):
        r.bad("lines-expanded", "%s: text" % ln.f.qual, "macros are not expanded in the text", ln.f.qual)


def removed(p, e):
    if e.kind == "call" and e.target[0] == "func" and p.functions[e.target[1]].name == "rem_def":
        f = p.functions[e.target[1]]
        got = dict(zip(f.params, e.args))
        got.update(dict(e.kwargs or ()))
        k = strip_ver(got.get(f.params[1], NONE))
        if is_const(k):
            yield k[2]
        elif k[0] == "elem" and strip_ver(k[1])[0] in ("tuple", "list"):
            for y in strip_ver(k[1])[1]:
                yield y[2] if is_const(y) else "?"
        else:
            yield "?"


def sized(a, t, n):
    """Value of a comparison when there are `n` parameters."""
    out = []
    for x in a[1:]:
        if is_const(x) and isinstance(x[2], int):
            out.append(x[2])
        elif x[0] == "call" and x[1] == ("builtin", "len") and strip_ver(x[2][0]) in (
                ("attr", t, "args"), ("item", t, ("const", "str", "args"))):
            out.append(n)
        else:
            return None
    return out[0] < out[1] if a[0] == "lt" else out[0] == out[1]


def registered(ctx):
    """What #define registers."""
    p, r = ctx.p, ctx.r
    f = ctx.CParser.find("process_macro_defn")
    if f is None:
        return
    fl = ctx.flow(f, key="c23d", implicit=False, opaque=lambda x: x.name in ("eval_expr", "add_def", "compile_fn_macro"))
    t = ("param", f.params[1])
    name = lambda x: strip_ver(x) in (("attr", t, "macro"), ("item", t, ("const", "str", "macro")))  # noqa
    raw = (("attr", t, "value"), ("item", t, ("const", "str", "value")))

    def text(x):
        x = strip_ver(x)
        return x in raw or x[0] == "call" and x[1][0] == "method" and x[1][2] == "strip" and strip_ver(x[1][1]) in raw

    for s, o in fl.outcomes:
        if o[0] == "raise":
            continue
        adds = {}
        for e in s.trace:
            if e.kind == "call" and e.target[0] == "func" and p.functions[e.target[1]].name == "add_def":
                g = p.functions[e.target[1]]
                got = dict(zip(g.params, e.args))
                got.update(dict(e.kwargs or ()))
                k = strip_ver(got.get("typ", NONE))
                if is_const(k):
                    adds[k[2]] = (got.get("name", NONE), strip_ver(got.get("val", NONE)), e)
        noargs = alias = None
        for a, v in s.conds.items():
            if a[0] == "eq" and ("const", "str", "") in a[1:] and any(
                    strip_ver(x) in (("attr", t, "args"), ("item", t, ("const", "str", "args"))) for x in a[1:]):
                noargs = v
            elif strip_ver(a) in (("attr", t, "args"), ("item", t, ("const", "str", "args"))):
                noargs = not v
            elif a[0] == "in" and table(a[2]) == "fnmacros" and text(a[1]):
                alias = v
            elif a[0] in ("lt", "eq"):
                fits = [sized(a, t, n) for n in (0, 1, 2)]
                if None in fits:
                    continue
                fits = [n for n in (0, 1, 2) if bool(fits[n]) == v]
                if fits == [0] or fits == [1, 2]:
                    noargs = fits == [0]
                elif fits:
                    r.check(0 not in fits, "define", "%s: presence of parameters" % f.qual,
                            "macros with parameters or none are handled alike", f.qual)
        for k, (n, v, e) in adds.items():
            bad = None
            if not name(n):
                bad = "registered as %s" % show(n)[:50]
            elif k == "macros":
                if not text(v):
                    bad = "the text registered is %s" % show(v)[:60]
                elif noargs is False:
                    bad = "a macro with parameters is registered as object-like"
            elif k == "values":
                ok = v[0] == "call" and v[1][0] == "func" and p.functions[v[1][1]].name == "eval_expr" and any(text(x) for x in v[2])
                if not ok:
                    bad = "the value is %s" % show(v)[:60]
            elif k == "fnmacros":
                if alias:
                    if not (v[0] == "item" and table(v[1]) == "fnmacros" and text(v[2])):
                        bad = "the macro copied is %s" % show(v)[:60]
                elif v[0] == "call" and v[1][0] == "func" and p.functions[v[1][1]].name == "compile_fn_macro":
                    g = p.functions[v[1][1]]
                    got = dict(zip(g.params, v[2]))
                    got.update(dict(v[3] or ()))
                    a = strip_ver(got.get(g.params[2], NONE))
                    srcs = (("attr", t, "args"), ("item", t, ("const", "str", "args")))
                    if not text(got.get(g.params[1], NONE)):
                        bad = "the text compiled is %s" % show(got.get(g.params[1], NONE))[:60]
                    elif a not in srcs and not (a[0] == "call" and a[1] in (("builtin", "list"), ("builtin", "tuple")) and strip_ver(a[2][0]) in srcs
                                                or a[0] in ("comp", "list", "tuple") and any(x in srcs for x in subterms(a))
                                                or a[0] == "call" and a[1][0] == "method" and strip_ver(a[1][1]) in srcs):
                        bad = "the parameters are %s" % show(a)[:60]
                    if bad is None and any(x[0] == "slice" or x[0] == "call" and x[1] in (("builtin", "reversed"), ("builtin", "sorted"), ("builtin", "set"))
                                           for x in subterms(a)):
                        bad = "the parameters are reordered"
                    if noargs is True:
                        bad = "a macro without parameters is registered as function-like"
            r.check(bad is None, "define", "%s: %s" % (f.qual, k), bad or "", where(e))
        if noargs is True and alias is not True:
            r.check("macros" in adds, "define", "%s: object-like" % f.qual, "is not registered", f.qual)
        if noargs is False and alias is not True:
            r.check("fnmacros" in adds, "define", "%s: function-like" % f.qual, "is not registered", f.qual)
    r.floor("define", 2)
