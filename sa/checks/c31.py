"""The parts of a type are kept, in the order of C, with their qualifiers."""

from ..common import where
from ..flow import C, NONE, is_const, show, subterms
from ..rows import Rows
from .c29 import callee

TITLE = "the parts of a type are kept in the order of C, with their qualifiers"
RULES = (
    "sequence algebra over the terms returned on every path: the declarators of a "
    "declaration are its calling convention, pointers, arrays, parameters, then those of "
    "the declarator in parentheses, each one left out only if the declaration has none; the "
    "qualifiers are cut and joined at the same offsets as the declarators; a typedef is "
    "replaced by its base type, its declarators and those which used it, the consecutive "
    "sizes of arrays being in the order of C, again until the base type is a fundamental "
    "one, with the typedefs met so far; the conversions between the two forms of functions keep everything."
)
ASSUMPTIONS = (
    "the type_quals of a type are as long as the type (its constructor refuses others)",
)
OPAQUE = ("process_declarator", "process_type", "eval_expr", "is_fund_type")


# --- sequences ------------------------------------------------------------------

class Lin(tuple):
    """const + sum of symbols: (const, ((symbol, coefficient)..))."""

    def __new__(cls, c=0, syms=()):
        d = {}
        for k, v in syms:
            d[k] = d.get(k, 0) + v
        return tuple.__new__(cls, (c, tuple(sorted(((k, v) for k, v in d.items() if v), key=repr))))

    def __add__(self, o):
        o = o if isinstance(o, Lin) else Lin(o)
        return Lin(self[0] + o[0], self[1] + o[1])

    def __sub__(self, o):
        o = o if isinstance(o, Lin) else Lin(o)
        return Lin(self[0] - o[0], self[1] + tuple((k, -v) for k, v in o[1]))

    def const(self):
        return self[0] if not self[1] else None


class Seqs:
    """Terms as sequences of parts of others.

    ("part", source, from, to), ("one", term) or ("each", term, source, length).
    """

    def __init__(self, fl, state=None):
        self.fl = fl
        self.rows = Rows(fl)
        self.state = state

    def length(self, src):
        if src[0] == "attr" and src[2] == "type_quals":
            src = src[1]
        elif src[0] in ("merged", "first"):
            src = src[1][1]
        elif src[0] == "item" and src[2] == C(2) and callee(src[1]) == "process_declarator":
            # one more than the declarators, by induction
            return Lin(1, ((("len", ("item", src[1], C(1))), 1),))
        return Lin(0, ((("len", src), 1),))

    def size(self, atoms):
        n = Lin()
        for a in atoms:
            n = n + (Lin(1) if a[0] == "one" else a[3] - a[2] if a[0] == "part" else a[3])
        return n

    def lin(self, t):
        t = self.fl.strip(t)
        if is_const(t) and isinstance(t[2], int) and not isinstance(t[2], bool):
            return Lin(t[2])
        if t[0] == "bin" and t[1] in ("Add", "Sub"):
            a, b = self.lin(t[2]), self.lin(t[3])
            return a + b if t[1] == "Add" else a - b
        if t[0] == "call" and t[1] == ("builtin", "len") and t[2]:
            s = self.seq(t[2][0])
            if s is not None:
                return self.size(s)
        return Lin(0, ((t, 1),))

    def seq(self, t):
        out = self.raw(t)
        return None if out is None else merged(self, out)

    def raw(self, t):
        t = self.fl.strip(t)
        if t[0] in ("tuple", "list"):
            return self.items(t[1])
        if t[0] == "call" and t[1] in (("builtin", "tuple"), ("builtin", "list")) and len(t[2]) <= 1:
            return self.raw(t[2][0]) if t[2] else []
        if t[0] == "attr" and t[2] == "declarators":
            return [("part", t[1], Lin(1), self.length(t[1]))]
        if t[0] == "bin" and t[1] == "Add":
            a, b = self.raw(t[2]), self.raw(t[3])
            return None if a is None or b is None else a + b
        if t[0] == "bin" and t[1] == "Mult":
            for x, n in ((t[2], t[3]), (t[3], t[2])):
                x = self.fl.strip(x)
                if x[0] in ("tuple", "list", "obj", "const"):
                    s = self.raw(x) if x[0] != "const" else [("one", x)] if is_const(x) and isinstance(x[2], str) and len(
                        x[2]) == 1 else None
                    if s is not None and len(s) == 1 and s[0][0] == "one":
                        k = self.lin(n)
                        if k.const() is not None:
                            return [s[0]] * max(0, k.const())
                        return [("each", s[0][1], self.counted(n), k)]
            return None
        if t[0] == "slice":
            s = self.seq(t[1])
            if s is None or t[4] not in (NONE, C(1)):
                return None
            lo, hi = self.bound(t[2], s, Lin()), self.bound(t[3], s, self.size(s))
            got = None if lo is None or hi is None else self.cut(s, lo, hi)
            if got is None and len(s) == 1 and s[0][0] == "each":
                part = ("slice", s[0][2]) + t[2:]
                return [("each", s[0][1], part, Lin(0, ((("len", part), 1),)))]
            return got
        if t[0] == "comp":
            if any(t[4][1]) if t[4] and "alts" in t[4] else t[4]:
                return None
            src, ordered, why, _ = self.rows.own(t[3])
            s = self.seq(src)
            if s is None or not ordered:
                return [("each", t[2], t[3], Lin(0, ((("len", t[3]), 1),)))]
            return [("each", t[2], src, self.size(s))]
        if t[0] == "call" and t[1] == ("builtin", "map") and len(t[2]) == 2:
            src, ordered, why, _ = self.rows.own(t[2][1])
            return [("each", t, src, self.length(src)) if ordered else ("each", t, t[2][1], Lin(0, ((("len", t[2][1]), 1),)))]
        if t[0] == "obj":
            return self.obj(t)
        if t[0] in ("param", "item", "attr", "elem") or t[0] == "call" and t[1][0] == "method" and t[1][2] in ("get", "pop"):
            return [("part", t, Lin(), self.length(t))]
        return None

    def counted(self, n):
        """What is counted by n."""
        n = self.fl.strip(n)
        if n[0] == "call" and n[1] == ("builtin", "len"):
            return self.rows.own(n[2][0])[0]
        return n

    def bound(self, t, s, default):
        if t == NONE:
            return default
        if t[0] == "un" or t[0] == "unary":
            return None
        n = self.lin(t)
        if n.const() is not None and n.const() < 0:
            return self.size(s) + n
        if any(v < 0 for k, v in n[1]) and not any(v > 0 for k, v in n[1]):
            return None
        return n

    def items(self, its):
        out = []
        for x in its:
            if x[0] == "star":
                s = self.raw(x[1])
                if s is None:
                    return None
                out += s
            else:
                out.append(("one", x))
        return out

    def shorter(self, s, n, end):
        """Without the n last (first) items."""
        s = list(s)
        for _ in range(n):
            if not s:
                break
            i = -1 if end else 0
            a = s[i]
            if a[0] == "one":
                s.pop(i)
            elif a[0] == "part":
                s[i] = ("part", a[1], a[2], a[3] - 1) if end else ("part", a[1], a[2] + 1, a[3])
            elif end:
                s[i] = ("each", a[1], a[2], a[3] - 1)
            else:
                return None
        return s

    def cut(self, s, lo, hi):
        if lo == Lin():
            n = (self.size(s) - hi).const()
            if n is not None and n >= 0:
                return self.shorter(s, n, True)
        if hi == self.size(s):
            n = lo.const()
            if n is not None and n >= 0:
                return self.shorter(s, n, False)
        out, pos = [], Lin()
        for a in s:
            n = self.size([a])
            end = pos + n
            first, last = self.order(lo, pos), self.order(hi, end)
            before, after = self.order(lo, end), self.order(hi, pos)
            if before == ">" or before == "=" or after == "<" or after == "=":
                pos = end
                continue
            whole = first in ("<", "=") and last in (">", "=")
            if whole:
                out.append(a)
            elif a[0] == "part":
                b = lo - pos if first not in ("<", "=") else Lin()
                e = hi - pos if last not in (">", "=") else n
                if len(s) > 1 and (first is None and s[0] is not a or last is None and s[-1] is not a):
                    return None
                out.append(("part", a[1], a[2] + b, a[2] + e))
            elif a[0] == "each" and first in ("<", "=") and (hi - end).const() is not None and s[-1] is a:
                out.append(("each", a[1], a[2], a[3] + (hi - end)))
            else:
                return None
            pos = end
        return out

    @staticmethod
    def order(a, b):
        d = (a - b)
        c = d.const()
        if c is not None:
            return "=" if c == 0 else "<" if c < 0 else ">"
        # a length is positive, an offset is not after the end
        if all(v > 0 for k, v in d[1]) and d[0] >= 0:
            return ">" if d[0] > 0 else None
        if all(v < 0 for k, v in d[1]) and d[0] <= 0:
            return "<" if d[0] < 0 else None
        return None

    def obj(self, t):
        """A list: its first content and what was put into it."""
        if self.state is None:
            return None
        s, events = self.state
        puts = [e for e in events if e.kind == "mutate" and self.fl.strip(e.target) == t]
        if any(e.kind == "mutate" and e.loops and self.fl.strip(e.target) == t for e in self.fl.events):
            return None
        first = puts[0].state if puts else s
        its = first.get((t, "#items"))
        if its is None or t[1] != "list":
            return None
        out = self.items(its)
        for e in puts:
            if out is None:
                return None
            if e.how == "append":
                out = out + [("one", e.args[0])]
            elif e.how in ("extend", "augassign"):
                more = self.raw(e.args[0])
                out = None if more is None else out + more
            elif e.how == "insert" and e.args[0] == C(0):
                out = [("one", e.args[1])] + out
            else:
                return None
        return out


def merged(sq, atoms):
    """Adjacent parts joined."""
    out = []
    for a in atoms:
        p = out[-1] if out else None
        if a[0] == "part" and a[2] == a[3]:
            continue
        if a[0] == "one" and a[1][0] == "item" and p and p[0] == "part" and p[1] == sq.fl.strip(a[1][1]) and is_const(a[1][2]):
            # its next item
            i = Lin(a[1][2][2])
            if i[0] < 0:
                i = sq.length(p[1]) + i
            if i == p[3]:
                out[-1] = ("part", p[1], p[2], i + 1)
                continue
        if p and p[0] == a[0] == "part" and p[1] == a[1] and p[3] == a[2]:
            out[-1] = ("part", a[1], p[2], a[3])
        elif p and p[0] == "part" and a[0] == "one" and a[1][0] == "bin" and a[1][1] == "Add" and last_of(sq, a[1][2], p):
            out[-1] = ("part", ("merged", p[1], a[1][3]), p[2], p[3] + 1)
        elif p and p[0] == "each" and a[0] == "one" and a[1][0] == "bin" and a[1][1] == "Add" and (
                p[3] + 1).const() is None and len(p) == 4 and a[1][2][0] == "item" and a[1][2][2] == C(-1):
            out[-1] = ("each", p[1], p[2], p[3] + 1)
            out[-1] += (a[1][3],)
        else:
            if a[0] == "part" and a[2] == Lin(1) and p and p[0] == "one" and p[1][0] == "bin" and p[1][1] == "Add" and (
                    p[1][2] == ("item", a[1], C(0))):
                out[-1] = ("part", ("first", a[1], p[1][3]), Lin(), a[3])
            else:
                out.append(a)
    return out


def last_of(sq, t, p):
    """The term is the item following the part."""
    if t[0] != "item" or sq.fl.strip(t[1]) != p[1] or not is_const(t[2]) or not isinstance(t[2][2], int):
        return False
    i = Lin(t[2][2])
    if i[0] < 0:
        i = sq.length(p[1]) + i
    return i == p[3]


def text(atoms):
    if atoms is None:
        return "unknown"
    out = []
    for a in atoms:
        if a[0] == "part":
            out.append("%s[%s:%s]" % (source(a[1]), bound(a[2]), bound(a[3])))
        elif a[0] == "one":
            out.append(show(a[1])[:30])
        else:
            out.append("%s for %s" % (show(a[1])[:20], show(a[2])[:30]))
    return " + ".join(out) or "nothing"


def source(t):
    return source(t[1]) + " (joined)" if t[0] in ("merged", "first") else show(t)[:40]


def bound(n):
    out = [str(n[0])] if n[0] or not n[1] else []
    for k, v in n[1]:
        out.append(("" if v > 0 else "-") + ("len" if k[0] == "len" else "n"))
    return "+".join(out).replace("+-", "-")


# --- rules ------------------------------------------------------------------------

def flow(ctx, f):
    return ctx.flow(f, key="c31", implicit=False, unroll="all", opaque=lambda x: x.name in OPAQUE)


def run(ctx):
    declarator(ctx)
    typed(ctx)
    resolved(ctx)
    converted(ctx)
    for k in ("parts", "aligned", "type", "resolved", "converted"):
        ctx.r.floor(k, 1)


def paths(fl):
    """Paths returning a value: (final state, value, terms of sequences)."""
    for s, o in fl.outcomes:
        if o is None or o[0] == "raise" or any(e.kind == "raise" for e in s.trace):
            continue
        yield s, o[1], Seqs(fl, (s.heap, s.trace))


FIELDS = ("call_conv", "ptrs", "arrays", "args", "center")


def of_decl(t):
    """Field of the declarator a term is made of."""
    for x in subterms(t):
        if x[0] == "item" and x[1] == ("param", "decl") and is_const(x[2]):
            return x[2][2]
        if x[0] == "call" and x[1] == ("method", ("param", "decl"), "get") and x[2] and is_const(x[2][0]):
            return x[2][0][2]
        if x[0] == "attr" and x[1] == ("param", "decl"):
            return x[2]
    return None


def told(conds, name):
    """Whether the declarator has the field, as the path tells."""
    out = []
    for a, w in conds.items():
        if a[0] == "in" and a[1] == C(name) and a[2] == ("param", "decl"):
            out.append(w)
        elif of_decl(a) == name:
            if a[0] in ("item", "attr", "call") and top(a) == name:
                out.append(w)
            elif a[0] in ("lt", "le", "eq", "is", "gt", "ge"):
                for x, y in ((a[1], a[2]), (a[2], a[1])):
                    if x == C(0) and y[0] == "call" and y[1] == ("builtin", "len"):
                        out.append(w if (a[0], x == a[1]) in (("lt", True), ("gt", False)) else not w)
                    elif y in (NONE, C("")) and top(x) == name:
                        out.append(not w)
    return out


def top(t):
    if t[0] == "item" and t[1] == ("param", "decl") and is_const(t[2]):
        return t[2][2]
    if t[0] == "attr" and t[1] == ("param", "decl"):
        return t[2]
    if t[0] == "call" and t[1] == ("method", ("param", "decl"), "get") and t[2]:
        return t[2][0][2]
    if t[0] == "call" and t[1] in (("builtin", "len"), ("builtin", "bool")) and t[2]:
        return top(t[2][0])
    return None


def kind(sq, a):
    """Part of the declarator an atom of the list of declarators is."""
    if a[0] == "one":
        t = a[1]
        if t == C("&"):
            return "ref"
        if t == C("*"):
            return "ptrs"
        if t == ("tuple", ()):
            return "args"
        return of_decl(t)
    if a[0] == "part":
        c = a[1]
        if c[0] == "item" and callee(c[1]) == "process_declarator":
            return "center"
        return of_decl(c)
    return of_decl(a[2]) or of_decl(a[1])


def declarator(ctx):
    r = ctx.r
    f = ctx.method(ctx.CParser, "process_declarator")
    fl = flow(ctx, f)
    seen = set()
    for s, R, sq in paths(fl):
        what = f.qual
        if R[0] not in ("tuple", "list") or len(R[1]) != 3:
            r.skip("parts", what, "it returns %s" % show(R)[:50])
            continue
        name, toks, quals = R[1]
        D, Q = sq.seq(toks), sq.seq(quals)
        if D is None:
            r.skip("parts", what, "the declarators are %s" % show(toks)[:50])
            continue
        kinds = [kind(sq, a) for a in D]
        has = {n: told(s.conds, n) for n in FIELDS + ("ref", "name")}
        if any(True in v and False in v and n not in FIELDS for n, v in has.items()):
            continue
        key = (tuple(kinds), tuple((n, tuple(v)) for n, v in sorted(has.items())), tuple(D), tuple(Q or ()), name)
        if key in seen:
            continue
        seen.add(key)
        if None in kinds:
            a = D[kinds.index(None)]
            (r.bad if a[0] == "one" and is_const(a[1]) else lambda x, y, z, w: r.skip(x, y, z))(
                "parts", what, "a declarator is %s" % text([a]), f.qual)
            continue
        for n in FIELDS + ("ref",):
            part = "%s: %s" % (what, n)
            k = [i for i, x in enumerate(kinds) if x == n]
            if not k:
                if has[n] and False in has[n] or n == "args" and ("ref" in ()):
                    r.ok("parts", part)
                else:
                    r.bad("parts", part, "left out" if has[n] else "never looked at", f.qual)
                continue
            if len(k) > 1 and n != "ptrs":
                r.bad("parts", part, "taken twice", f.qual)
            a = D[k[0]]
            if has[n] and False in has[n] and a[0] != "each":
                r.bad("parts", part, "put in a declarator without it", f.qual)
            content(ctx, sq, s, n, part, a)
        order = [FIELDS.index(x) for x in kinds if x in FIELDS]
        r.check(order == sorted(order), "parts", what + ": order", "the order is %s" % ", ".join(x for x in kinds if x), f.qual)
        if "ref" in kinds and "center" in kinds:
            r.check(kinds.index("ref") < kinds.index("center"), "parts", what + ": order",
                    "the reference is put after the declarator in parentheses", f.qual)
        named(ctx, f, s, name, has)
        qualified(ctx, f, sq, D, kinds, Q, quals)


def content(ctx, sq, s, n, part, a):
    r = ctx.r
    here = ctx.method(ctx.CParser, "process_declarator").qual
    if n in ("ptrs", "arrays"):
        if a[0] != "each":
            good = n == "ptrs" and False
            (r.skip if a[0] == "part" and not good else lambda x, y, z: r.bad(x, y, z, here))(
                "parts", part, "only %s is taken" % text([a]))
            return
        src = sq.rows.peel(a[2])
        if top(src[0]) == n and not src[1]:
            r.bad("parts", part, "taken from %s" % show(a[2])[:50], here)
            return
        if src[0][0] in ("unk", "phi"):
            r.skip("parts", part, "taken from %s" % show(a[2])[:50])
            return
        if top(src[0]) != n:
            r.bad("parts", part, "as many as %s" % show(a[2])[:50], here)
            return
        if n == "ptrs":
            r.check(a[1] == C("*"), "parts", part, "each gives %s" % show(a[1])[:40], here)
        else:
            e = sq.seq(a[1]) if a[1][0] != "obj" else inner(sq, a[1])
            if e is None:
                r.skip("parts", part, "each gives %s" % show(a[1])[:40])
            elif len(e) == 1 and e[0][0] == "one" and callee(e[0][1]) == "eval_expr":
                x = [y for y in e[0][1][2] if y != ("param", "self")]
                r.check(len(x) == 1 and x[0][0] == "elem" and top(sq.rows.own(x[0][1])[0]) == n, "parts", part,
                        "each gives %s" % show(e[0][1])[:50], here)
            else:
                r.bad("parts", part, "each gives %s" % text(e), here)
    elif n == "args":
        t = a[1]
        void = [w for x, w in s.conds.items() if x[0] in ("is", "eq") and NONE in x[1:3] and any(
            top(y) is None and of_decl(y) == "args" and y[0] == "item" for y in x[1:3])]
        if a[0] != "one":
            r.bad("parts", part, "not put as one declarator", here)
            return
        if t == ("tuple", ()):
            r.check(void and void[0], "parts", part, "the parameters are left out", here)
            return
        if void and void[0]:
            r.bad("parts", part, "a lone void gives %s" % show(t)[:40], here)
            return
        if not (t[0] == "call" and t[1] == ("builtin", "tuple") or t[0] == "tuple"):
            (r.bad if t[0] in ("obj", "comp") else lambda x, y, z, w: r.skip(x, y, z))(
                "parts", part, "they are %s" % show(t)[:40], here)
            return
        e = sq.seq(t)
        if e is None:
            # not all of them, or in another order
            why = unlike(sq, t)
            (r.bad if why else lambda x, y, z, w: r.skip(x, y, z))("parts", part, "they are %s" % (why or show(t)[:40]), here)
            return
        if len(e) == 1 and e[0][0] == "each" and not sq.rows.peel(e[0][2])[1]:
            r.bad("parts", part, "they are taken from %s" % show(e[0][2])[:50], here)
            return
        if len(e) != 1 or e[0][0] != "each" or top(sq.rows.own(e[0][2])[0]) != n:
            (r.skip if e and e[0][0] == "each" and e[0][2][0] in ("unk", "phi") else lambda x, y, z: r.bad(x, y, z, here))(
                "parts", part, "they are %s" % text(e))
            return
        ps = [x for x in subterms(e[0][1]) if callee(x) == "process_type"]
        if not ps:
            r.skip("parts", part, "each is %s" % show(e[0][1])[:50])
            return
        for p in ps:
            g = [x for x in p[2] if x != ("param", "self")]
            typ, dec = (g + [dict(p[3]).get("typ"), dict(p[3]).get("decl")] if len(g) < 2 else g)[:2]
            ok = typ is not None and dec is not None and named_field(typ) == "type" and dec[0] == "item" and (
                dec[2] == C(0)) and named_field(dec[1]) == "decl" and typ[1] == dec[1][1]
            if typ is None or dec is None or typ[0] in ("unk", "phi"):
                r.skip("parts", part, "each is %s" % show(p)[:50])
            else:
                r.check(ok, "parts", part, "each is %s" % show(p)[-70:], here)
    elif n == "call_conv":
        r.check(a[0] == "one" and top(a[1]) == n, "parts", part, "it is %s" % text([a]), here)
    elif n == "center":
        c = a[1] if a[0] == "part" else None
        if c is None or c[0] != "item" or callee(c[1]) != "process_declarator":
            r.bad("parts", part, "not put declarator by declarator", here)
            return
        x = [y for y in c[1][2] if y != ("param", "self")]
        r.check(c[2] == C(1) and a[2] == Lin() and a[3] == sq.length(c), "parts", part, "only %s is taken" % text([a]), here)
        r.check(len(x) == 1 and x[0][0] == "item" and x[0][2] == C(0) and top(x[0][1]) == n, "parts", part,
                "it is %s" % show(c[1])[:50], here)


def named_field(t):
    if t[0] == "item" and is_const(t[2]) and isinstance(t[2][2], str):
        return t[2][2]
    if t[0] == "attr":
        return t[2]
    return None


def inner(sq, t):
    """Items of a list built for each element."""
    its = (sq.state[0].get((t, "#items")) if sq.state else None)
    return None if its is None else sq.items(its)


def unlike(sq, t):
    for x in subterms(t):
        if x[0] == "call" and x[1] in (("builtin", "reversed"), ("builtin", "sorted")) or x[0] == "slice":
            return show(x)[:50]
        if x[0] == "comp" and any(not any(NONE in a[1:3] for a, w in c) for c in (
                x[4][1] if "alts" in x[4] else [x[4]]) if c):
            return "some of " + show(x[3])[:50]
    return None


def named(ctx, f, s, name, has):
    r = ctx.r
    what = f.qual + ": name"
    own = has["name"]
    center = not (has["center"] and False in has["center"]) and has["center"]
    if own and False not in own:
        r.check(top(name) == "name", "parts", what, "it is %s" % show(name)[:40], f.qual)
    elif own and top(name) == "name":
        # .get("name", ...)
        r.ok("parts", what)
    elif not own and top(name) != "name":
        r.bad("parts", what, "not looked at", f.qual)
    elif center:
        c = name[0] == "item" and name[2] == C(0) and callee(name[1]) == "process_declarator"
        nil = any(a[0] in ("is", "eq") and NONE in a[1:3] and w and any(
            x[0] == "item" and callee(x[1]) == "process_declarator" for x in a[1:3]) or (
                a[0] == "item" and callee(a[1]) == "process_declarator" and not w) for a, w in s.conds.items())
        r.check(c or name == NONE and nil, "parts", what, "the name in the parentheses is lost", f.qual)
    else:
        r.check(name == NONE, "parts", what, "it is %s" % show(name)[:40], f.qual)


def qualified(ctx, f, sq, D, kinds, Q, quals):
    """Qualifiers follow the declarator they qualify, by their offsets."""
    r = ctx.r
    what = f.qual + ": qualifiers"
    if Q is None:
        r.skip("aligned", what, "they are %s" % show(quals)[:50])
        return
    if (sq.size(Q) - sq.size(D)) != Lin(1):
        d = (sq.size(Q) - sq.size(D)).const()
        if d is None:
            r.bad("aligned", what, "not as many as the declarators: %s for %s" % (text(Q)[:60], text(D)[:60]), f.qual)
        else:
            r.bad("aligned", what, "%d of them for the base type: %s" % (d, text(Q)[:60]), f.qual)
        return
    offset = {}
    pos = Lin(1)
    for a, k in zip(D, kinds):
        offset.setdefault(k, pos)
        pos = pos + sq.size([a])
    pos = Lin()
    for i, a in enumerate(Q):
        t = a[1] if a[0] != "part" else a[1]
        extra = a[4:] if a[0] == "each" else ()
        n = of_decl(a[2]) if a[0] == "each" else of_decl(t)
        mixed = [x for x in subterms(t) if x[0] == "item" and x[2] == C(0) and x[1][0] == "item" and x[1][2] == C(2)
                 and callee(x[1][1]) == "process_declarator"]
        if i == 0:
            r.check(of_any(t, "first_typequal"), "aligned", what, "those of the base type are %s" % text([a]), f.qual)
        if a[0] == "each" and n == "ptrs":
            r.check(offset.get("ptrs") == pos, "aligned", what, "those of the pointers are given to other declarators", f.qual)
            o = sq.rows.peel(a[2])
            r.check(o[1], "aligned", what, "those of the pointers are taken from %s" % show(a[2])[:40], f.qual)
            r.check(any(x[0] == "elem" for x in subterms(t)) or "map" in show(t), "aligned", what,
                    "those of the pointers are %s" % show(t)[:40], f.qual)
        if a[0] == "part" and t[0] == "item" and callee(t[1]) == "process_declarator":
            r.check(t[2] == C(2) and offset.get("center") is not None and pos - a[2] + 1 == offset["center"], "aligned", what,
                    "those of the declarator in parentheses are given to other declarators", f.qual)
        if (mixed or extra) and a[0] != "part":
            end = pos + sq.size([a])
            r.check(offset.get("center") == end, "aligned", what,
                    "the first ones in the parentheses are given to another declarator", f.qual)
        pos = pos + sq.size([a])
    if "ptrs" in kinds:
        r.check(any(of_decl(a[2] if a[0] == "each" else a[1]) == "ptrs" for a in Q), "aligned", what,
                "those of the pointers are lost", f.qual)
    if "center" in kinds:
        got = [x for a in Q for y in a[1:] if isinstance(y, tuple) for x in subterms(y) if x[0] == "item" and x[2] == C(2)
               and callee(x[1]) == "process_declarator"]
        r.check(got, "aligned", what, "those of the declarator in parentheses are lost", f.qual)
        first = [x for a in Q for y in a[1:] if isinstance(y, tuple) for x in subterms(y) if x[0] == "item" and x[2] == C(0)
                 and x[1][0] == "item" and x[1][2] == C(2) and callee(x[1][1]) == "process_declarator"]
        whole = any(a[0] == "part" and a[1][0] == "item" and a[2] == Lin() and callee(a[1][1]) == "process_declarator" for a in Q)
        r.check(first or whole, "aligned", what, "the first ones in the parentheses are lost", f.qual)


def of_any(t, name):
    return any(is_const(x) and x[2] == name or x[0] == "attr" and x[2] == name for x in subterms(t))


def typed(ctx):
    """A name and a type: the base type and the declarators of the declarator."""
    r = ctx.r
    f = ctx.method(ctx.CParser, "process_type")
    fl = flow(ctx, f)
    for s, R, sq in paths(fl):
        what = f.qual
        if R[0] not in ("tuple", "list") or len(R[1]) != 2 or R[1][1][0] != "new":
            r.skip("type", what, "it returns %s" % show(R)[:50])
            continue
        name, t = R[1]
        pd = [x for x in subterms(R) if callee(x) == "process_declarator"]
        if not pd:
            r.skip("type", what, "made without process_declarator")
            continue
        D, Q = shape(sq, t)
        if D is None:
            why = unlike(sq, ("tuple", t[2]))
            (r.bad if why else lambda x, y, z, w: r.skip(x, y, z))("type", what, "it is made of %s" % (why or show(t)[:50]), f.qual)
            continue
        toks, quals = ("item", pd[0], C(1)), ("item", pd[0], C(2))
        r.check(name == ("item", pd[0], C(0)), "type", what, "the name is %s" % show(name)[:40], f.qual)
        r.check(len(D) == 2 and D[0][0] == "one" and named_field(D[0][1]) == "name" and D[1] == (
            "part", toks, Lin(), sq.length(toks)), "type", what, "it is made of %s" % text(D), f.qual)
        if Q is None:
            r.skip("aligned", what, "the qualifiers are unknown")
        else:
            ok = len(Q) == 2 and Q[0][0] == "one" and of_any(Q[0][1], "pre_qual") and any(
                x == ("item", quals, C(0)) for x in subterms(Q[0][1])) and Q[1] == ("part", quals, Lin(1), sq.length(quals))
            r.check(ok, "aligned", what, "the qualifiers are %s" % text(Q), f.qual)


def shape(sq, t):
    """(parts, qualifiers) of a type which is built."""
    D = sq.seq(("tuple", t[2]))
    q = dict(t[3]).get("type_quals")
    return D, (sq.seq(q) if q is not None else [])


def is_array_list(fl, ctx, t):
    """Declarators counted, if the term counts the first ones which are arrays."""
    if t[0] == "call" and t[1] == ("builtin", "sum") and t[2][0][0] == "comp" and not t[2][0][4] and t[2][0][2] == C(1):
        t = t[2][0][3]
    elif t[0] == "call" and t[1] == ("builtin", "len") and t[2]:
        t = t[2][0]
        if t[0] == "call" and t[1] in (("builtin", "list"), ("builtin", "tuple")):
            t = t[2][0]
    elif t[0] == "call" and t[1] in (("builtin", "list"), ("builtin", "tuple")) and t[2]:
        t = t[2][0]
    else:
        return None
    t = fl.strip(t)
    if t[0] == "call" and t[1] == ("ext", "itertools.takewhile") and len(t[2]) == 2:
        return t[2]
    return None


def resolved(ctx):
    r = ctx.r
    f = ctx.method(ctx.Type, "eval")
    fl = flow(ctx, f)
    me = ("param", "self")
    n = 0
    for s, o in fl.outcomes:
        sq = Seqs(fl, (s.heap, s.trace))
        fund = [w for a, w in s.conds.items() if callee(a) == "is_fund_type"]
        raised = o[0] == "raise" or any(e.kind == "raise" for e in s.trace)
        what = f.qual
        for a, w in s.conds.items():
            if a[0] == "in" and a[2] == ("param", "type_map") and not w and not (fund and fund[0]):
                r.check(raised and exception(s, o) == "DefinitionError", "resolved", what + " (unknown type)",
                        "no error is raised", f.qual)
        if raised:
            e = exception(s, o)
            r.check(e in ("DefinitionError", None) or not any(a[0] == "in" for a in s.conds), "resolved", what + " (error)",
                    "%s is raised" % e, f.qual)
            if fund and fund[0]:
                r.bad("resolved", what + " (fundamental)", "an error is raised", f.qual)
            continue
        R = o[1]
        n += 1
        if not fund:
            r.bad("resolved", what, "fundamental types are not told", f.qual)
            continue
        if fund[0]:
            base(ctx, f, fl, s, sq, R)
            continue
        if callee(R) != "eval" or R[1][0] != "func":
            (r.bad if R[0] in ("new", "param") else lambda x, y, z, w: r.skip(x, y, z))(
                "resolved", what, "its base type is not resolved further: %s" % show(R)[:60], f.qual)
            continue
        args = list(R[2])
        kw = dict(R[3])
        new = args[0]
        r.check(len(args) > 1 and args[1] == ("param", "type_map") or kw.get("type_map") == ("param", "type_map"), "resolved",
                what, "resolved further among other typedefs", f.qual)
        used = args[2] if len(args) > 2 else kw.get("used")
        circular(ctx, f, fl, s, used)
        if new[0] != "new":
            r.skip("resolved", what, "resolved to %s" % show(new)[:50])
            continue
        D, Q = shape(sq, new)
        pts = {fl.strip(x) for x in subterms(new) if typedef_of(x)}
        if len(pts) != 1 or D is None:
            r.skip("resolved", what, "resolved to %s" % show(new)[:50])
            continue
        pt = pts.pop()
        known(ctx, f, s, pt)
        D = merged(sq, [("part", a[1][1], Lin(0), Lin(1)) if a[0] == "one" and (
            a[1] == ("item", a[1][1], C(0)) or a[1] == ("attr", a[1][1], "type_spec")) else a for a in D])
        bad = [a for a in D if a[0] != "part" or a[1] not in (pt, me)]
        if bad:
            (r.bad if not bad[0][1:] or bad[0][0] == "one" and is_const(bad[0][1]) else lambda x, y, z, w: r.skip(x, y, z))(
                "resolved", what, "made of %s" % text(D), f.qual)
            continue
        good = tiled(D, pt, Lin(), sq.length(pt)) and tiled(D, me, Lin(1), sq.length(me))
        r.check(good, "resolved", what + ": parts", "not all the declarators, or not once: %s" % text(D), f.qual)
        r.check(D[0][1] == pt and D[-1][1] == me, "resolved", what + ": order",
                "the declarators of the typedef are not the first: %s" % text(D), f.qual)
        interleaved(ctx, f, fl, s, sq, D, pt, me)
        # qualifiers
        if Q is None:
            r.skip("aligned", what, "the qualifiers are unknown")
            continue
        want = [("part", ("attr", a[1], "type_quals"), a[2], a[3]) for a in D]
        got, joined = [], set()
        for a in Q:
            if a[0] == "part" and a[1][0] == "merged":
                joined.add(a[1][2])
                a = ("part", a[1][1]) + a[2:]
            got.append(a)
        r.check(got == want, "aligned", what, "the qualifiers are %s for %s" % (text(Q), text(D)), f.qual)
        if got == want:
            r.check(joined == {("item", ("attr", me, "type_quals"), C(0))}, "aligned", what,
                    "those of the type are lost", f.qual)
    if not n:
        r.skip("resolved", f.qual, "it returns nothing")


def known(ctx, f, s, pt):
    """Typedefs which do not exist are told."""
    import ast
    r = ctx.r
    what = f.qual + " (unknown type)"
    if any(a[0] == "in" and a[2] == ("param", "type_map") and w for a, w in s.conds.items()):
        r.ok("resolved", what)
    elif pt[0] == "call" and any(x == pt for a in s.conds for x in subterms(a)):
        r.ok("resolved", what)
    elif any(isinstance(x, ast.ExceptHandler) for x in ast.walk(f.node)):
        r.skip("resolved", what, "told by an exception")
    else:
        r.bad("resolved", what, "it is not told", f.qual)


def exception(s, o):
    for x in ([o[1]] if o[0] == "raise" and isinstance(o[1], tuple) else []):
        if x[0] == "exc":
            return str(x[1]).split(".")[-1]
    return None


def typedef_of(x):
    return x[0] == "item" and x[1] == ("param", "type_map") or x[0] == "call" and x[1] == (
        "method", ("param", "type_map"), "get")


def tiled(D, src, lo, hi):
    for a in D:
        if a[1] == src:
            if a[2] != lo:
                return False
            lo = a[3]
    return lo == hi


def interleaved(ctx, f, fl, s, sq, D, pt, me):
    """The arrays made of a typedef come before those of the typedef."""
    r = ctx.r
    what = f.qual + ": arrays"
    own = [a for a in D if a[1] == me]
    if len(D) <= 2:
        none = any(is_array_list(fl, ctx, a) and not w or a[0] == "eq" and C(0) in a[1:3] and w and any(
            is_array_list(fl, ctx, x) for x in a[1:3]) for a, w in s.conds.items())
        loop = any(x[0] in ("phi", "unk") for a in s.conds for x in subterms(a))
        told = any(of_arrays(a) for a in s.conds)
        if none or loop or told:
            r.ok("resolved", what)
        else:
            r.bad("resolved", what, "the sizes of an array of arrays defined by a typedef are in the wrong order", f.qual)
        return
    if [a[1] for a in D] != [pt, me, pt, me][:len(D)]:
        r.bad("resolved", what, "mixed in another way: %s" % text(D), f.qual)
        return
    for a, first in ((own[0], True), ([x for x in D if x[1] == pt][0], False)):
        end = a[3] - Lin(1) if first else sq.length(pt) - a[3]
        syms = [k for k, v in end[1]]
        if end.const() is not None:
            if not first and end.const() == 0:
                continue
            r.bad("resolved", what, "a fixed number of declarators is taken for the arrays", f.qual)
            continue
        c = is_array_list(fl, ctx, syms[0]) if len(syms) == 1 and end[0] == 0 else None
        if c is None:
            r.skip("resolved", what, "arrays counted in an unknown way")
            continue
        test, over = c
        over = fl.strip(over)
        back = over[0] == "call" and over[1] == ("builtin", "reversed")
        if over[0] == "slice" and over[2:] == (NONE, NONE, C(-1)):
            back, over = True, ("call", "", (over[1],))
        atoms = sq.seq(over[2][0] if back else over)
        src = me if first else pt
        if atoms is None:
            r.skip("resolved", what, "arrays counted in an unknown way")
            continue
        r.check(atoms == [("part", src, Lin(1), sq.length(src))] and back is not first, "resolved", what,
                "the arrays of %s are counted" % (text(atoms)), f.qual)
        arrays(ctx, f, fl, test)


def arrays(ctx, f, fl, test):
    """The predicate tells arrays: a list."""
    r = ctx.r
    import ast
    what = f.qual + ": arrays told"
    node = None
    if test[0] == "closure":
        for x in ast.walk(f.node):
            if isinstance(x, (ast.FunctionDef, ast.Lambda)) and getattr(x, "name", "<lambda>") == test[1] and x.lineno == test[2][0]:
                node = x
    if node is None:
        r.skip("resolved", what, "told by %s" % show(test)[:40])
        return
    names = {x.id for x in ast.walk(node) if isinstance(x, ast.Name)}
    if "list" in names and not names & {"tuple", "str"}:
        r.ok("resolved", what)
    elif names & {"tuple", "str", "list"}:
        r.bad("resolved", what, "by %s" % ", ".join(sorted(names)), f.qual)
    else:
        r.skip("resolved", what, "told by %s" % show(test)[:40])


def of_arrays(a):
    return any(x == ("builtin", "list") for x in subterms(a)) and any(x == ("builtin", "isinstance") or x[0] in (
        "is", "eq") for x in subterms(a))


def base(ctx, f, fl, s, sq, R):
    """A fundamental type: the same one without 'signed'."""
    r = ctx.r
    me = ("param", "self")
    what = f.qual + " (fundamental)"
    if R == me:
        if any(is_const(x) and x[2] == "signed" for a in s.conds for x in subterms(a)):
            r.ok("resolved", what)
        else:
            r.bad("resolved", what, "'signed' is not removed", f.qual)
        return
    if R[0] != "new":
        r.skip("resolved", what, "it is %s" % show(R)[:50])
        return
    D, Q = shape(sq, R)
    if D is None or not D:
        r.skip("resolved", what, "it is %s" % show(R)[:50])
        return
    r.check(D[1:] == [("part", me, Lin(1), sq.length(me))], "resolved", what, "its declarators are %s" % text(D[1:]), f.qual)
    if Q is None:
        r.skip("aligned", what, "its qualifiers are unknown")
    else:
        r.check(Q == [("part", ("attr", me, "type_quals"), Lin(0), sq.length(me))], "aligned", what,
                "its qualifiers are %s" % text(Q), f.qual)
    spec = D[0][1]
    if D[0][0] == "part":
        told_signed = any(is_const(x) and x[2] == "signed" for a in s.conds for x in subterms(a))
        r.check(told_signed, "resolved", what, "'signed' is not removed", f.qual)
        return
    if is_const(spec):
        r.check(spec[2] == "int" and any(not w for a, w in s.conds.items() if words(a)) or spec[2] == "int" and any(
            is_const(x) and x[2] == "signed" for a in s.conds for x in subterms(a)), "resolved", what, "it is %r" % spec[2], f.qual)
        return
    ws = [x for x in subterms(spec) if x[0] == "comp"]
    if not ws:
        (r.skip if any(is_const(x) and x[2] == "signed" for x in subterms(spec)) or spec[0] in (
            "unk", "phi", "call") else lambda x, y, z: r.bad(x, y, z, f.qual))("resolved", what, "it is %s" % show(spec)[:50])
        return
    for w in ws:
        filters = [(a, v) for a, v in w[4]] if len(w) > 4 else []
        ok = len(filters) == 1 and filters[0][0][0] == "eq" and C("signed") in filters[0][0][1:3] and filters[0][1] is False
        if not filters:
            r.bad("resolved", what, "'signed' is not removed", f.qual)
        elif not ok and any(is_const(x) and isinstance(x[2], str) and x[2] != "signed" for a, v in filters for x in subterms(a)):
            r.bad("resolved", what, "other words are removed", f.qual)
        elif not ok:
            r.skip("resolved", what, "words kept when %s" % show(filters[0][0])[:50])
        else:
            r.ok("resolved", what)


def words(a):
    return a[0] == "call" and a[1][0] == "method" and a[1][2] == "join" or a[0] == "comp" or any(
        x[0] == "comp" for x in subterms(a))


def circular(ctx, f, fl, s, used):
    """The typedef is noted, and was not among those met before."""
    r = ctx.r
    what = f.qual + ": circular typedefs"
    if used is None:
        r.bad("resolved", what, "the typedefs met are not passed on", f.qual)
        return
    parent = (("item", ("param", "self"), C(0)), ("attr", ("param", "self"), "type_spec"))
    u = fl.strip(used)
    noted = [e for e in s.trace if e.kind == "mutate" and fl.strip(e.target) == u and e.args and any(
        a in parent or isinstance(a, tuple) and any(x in parent for x in subterms(a)) for a in e.args)]
    inside = any(x in parent or x[0] == "obj" and any(y in parent for y in s.heap.get((x, "#items")) or ()) for x in subterms(u))
    r.check(noted or inside, "resolved", what, "the typedef is not noted", f.qual)
    conds = [s.conds] + [e.conds for e in noted]
    seen = any(a[0] == "in" and a[1] in parent and not w and a[2] != ("param", "type_map") and not any(
        x[0] == "slice" for x in subterms(a[2])) for c in conds for a, w in c.items())
    empty = any(a == ("param", "used") and not w for a, w in s.conds.items()) or any(
        a[0] in ("is", "eq") and ("param", "used") in a[1:3] and NONE in a[1:3] and w for a, w in s.conds.items())
    r.check(seen or empty, "resolved", what, "a typedef met before is not told", f.qual)


def converted(ctx):
    r = ctx.r
    T = ctx.Type
    me = ("param", "self")
    quals = ("attr", me, "type_quals")
    last = ("item", me, C(-1))
    # a function gets its result as one type
    f = ctx.method(T, "add_compatibility_hack")
    fl = flow(ctx, f)
    for s, R, sq in paths(fl):
        what = f.qual
        fn = [w for a, w in s.conds.items() if any(x == ("builtin", "tuple") for x in subterms(a)) and any(
            x[0] == "item" and x[1] == me for x in subterms(a))]
        at = [x for a in s.conds for x in subterms(a) if x[0] == "item" and x[1] == me and x[2] != C(-1)]
        if at:
            r.bad("converted", what, "a function is told by another declarator than the last one", f.qual)
            continue
        if R == me:
            r.check(fn and not fn[0], "converted", what, "left as it is", f.qual)
            continue
        if R[0] != "new":
            r.skip("converted", what, "it gives %s" % show(R)[:50])
            continue
        r.check(fn and fn[0], "converted", what, "a type which is not a function is changed", f.qual)
        a = R[2]
        if len(a) != 2 or a[0][0] != "new":
            r.skip("converted", what, "it gives %s" % show(R)[:50])
            continue
        D, Q = shape(sq, a[0])
        r.check(D == [("part", me, Lin(), sq.length(me) - 1)] and a[1] == last, "converted", what,
                "it is made of %s and %s" % (text(D), show(a[1])[:40]), f.qual)
        r.check(Q == [("part", quals, Lin(), sq.length(me) - 1)], "converted", what, "the qualifiers of the result are %s" % text(Q), f.qual)
        _, Q = shape(sq, R)
        if Q is None:
            r.skip("converted", what, "the qualifiers are unknown")
        else:
            r.check(len(Q) == 2 and Q[1] in (("one", ("item", quals, C(-1))), ("part", quals, sq.length(me) - 1, sq.length(me))),
                    "converted", what, "the qualifiers are %s" % text(Q), f.qual)
    f = ctx.method(T, "remove_compatibility_hack")
    fl = flow(ctx, f)
    inner = ("item", me, C(0))
    for s, R, sq in paths(fl):
        what = f.qual
        isn = [w for a, w in s.conds.items() if any(x[0] in ("class", "cls") or x == ("builtin", "isinstance") for x in subterms(a))]
        two = [w for a, w in s.conds.items() if any(x == ("builtin", "len") for x in subterms(a))]
        if R == me:
            r.check(isn and not isn[0] or two and not two[0], "converted", what, "left as it is", f.qual)
            continue
        if R[0] != "new":
            r.skip("converted", what, "it gives %s" % show(R)[:50])
            continue
        D, Q = shape(sq, R)
        if D is None:
            r.skip("converted", what, "it gives %s" % show(R)[:50])
            continue
        ok = [("part", inner, Lin(), sq.length(inner))]
        ones = [("one", ("item", me, C(1))), ("one", last), ("part", me, Lin(1), Lin(2)), ("part", me, Lin(1), sq.length(me))]
        r.check(D[:1] == ok and len(D) == 2 and D[1] in ones, "converted", what, "it is made of %s" % text(D), f.qual)
        if Q is None:
            r.skip("converted", what, "the qualifiers are unknown")
        else:
            iq = ("attr", inner, "type_quals")
            ones = [("one", ("item", quals, C(1))), ("one", ("item", quals, C(-1))), ("part", quals, Lin(1), Lin(2)),
                    ("part", quals, Lin(1), sq.length(me))]
            r.check(Q[:1] == [("part", iq, Lin(), sq.length(iq))] and len(Q) == 2 and Q[1] in ones, "converted", what,
                    "the qualifiers are %s" % text(Q), f.qual)
    # what the constructor keeps
    f = ctx.method(T, "__new__")
    fl = flow(ctx, f)
    for s, R, sq in paths(fl):
        a = [x for x in R[2] if x != ("param", "cls")] if R[0] == "call" else []
        D = sq.seq(a[0]) if len(a) == 1 else None
        if D is None:
            r.skip("converted", f.qual, "it makes %s" % show(R)[:50])
        else:
            d = ("param", "declarators")
            r.check(D == [("one", ("param", "type_spec")), ("part", d, Lin(), sq.length(d))], "converted", f.qual,
                    "a type is made of %s" % text(D), f.qual)
