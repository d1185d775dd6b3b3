"""Rewrites terms about loops and comprehensions to what they range over.

key/val/elem of a comprehension become the element expression itself, so that
`for i in {i: x for i, x in enumerate(L) if ...}` reads like a loop over L.
"""

from .flow import is_const


class Norm:
    def __init__(self, fl, special=None):
        self.fl = fl
        self.special = special  # term -> replacement or None
        self.memo = {}
        self.filters = {}  # comprehension -> alternatives of conditions

    def __call__(self, t):
        if not isinstance(t, tuple) or not t:
            if isinstance(t, frozenset):
                return frozenset(self(x) for x in t)
            return t
        try:
            return self.memo[t]
        except KeyError:
            pass
        self.memo[t] = t
        out = self.memo[t] = self.rewrite(t)
        return out

    def rewrite(self, t):
        if isinstance(t[0], str) and t[0] in ("const", "param", "ext", "builtin", "func", "cls"):
            return self.spec(t)
        got = self.spec(t)
        if got is not t:
            return got
        new = tuple(self(x) if isinstance(x, (tuple, frozenset)) else x for x in t)
        op = new[0]
        if op in ("key", "elem", "idx") and len(new) > 1:
            c = self.source(new[1])
            if c is not None:
                elt = self.elt(c)
                if elt is not None:
                    if c[1] == "dict":
                        if op in ("key", "elem") and elt[0] == "tuple":
                            return self.spec(elt[1][0])
                    elif op == "elem":
                        return self.spec(elt)
        if op == "val" and len(new) > 1:
            c = self.source(new[1])
            if c is not None and c[1] == "dict":
                elt = self.elt(c)
                if elt is not None and elt[0] == "tuple":
                    return self.spec(elt[1][1])
        if op == "item" and len(new) == 3:
            b, i = new[1], new[2]
            if b[0] == "tuple" and is_const(i) and isinstance(i[2], int) and -len(b[1]) <= i[2] < len(b[1]):
                return self.spec(b[1][i[2]])
            if b[0] == "comp" and b[1] == "dict":
                elt = self.elt(b)
                if elt is not None and elt[0] == "tuple" and elt[1][0] == i:
                    return self.spec(elt[1][1])
        return self.spec(new)

    def spec(self, t):
        if self.special is not None:
            got = self.special(t)
            if got is not None:
                return got
        return t

    def source(self, t):
        """The comprehension iterated over."""
        while t[0] == "call" and (
                t[1][0] == "method" and t[1][2] in ("items", "keys", "values", "copy")
                or t[1][0] == "builtin" and t[1][1] in ("list", "tuple", "sorted", "iter", "reversed") and t[2]):
            t = t[1][1] if t[1][0] == "method" else t[2][0]
        return t if t[0] == "comp" else None

    @staticmethod
    def elt(c):
        e = c[2]
        if e[0] == "alts":
            u = set(e[1])
            return e[1][0] if len(u) == 1 else None
        return e

    def comps(self, t):
        """Comprehensions a (not rewritten) term ranges over."""
        out = []

        def walk(x):
            if isinstance(x, tuple):
                if x and x[0] in ("key", "elem", "val", "idx", "item") and len(x) > 1 and isinstance(x[1], tuple) and x[1]:
                    c = self.source(x[1]) if isinstance(x[1][0], str) else None
                    if c is not None:
                        out.append(c)
                for y in x:
                    walk(y)
        walk(t)
        return out

    def filter_of(self, c):
        """Alternatives [{atom: polarity}] under which the comprehension keeps an element."""
        cs = c[4] if len(c) > 4 else frozenset()
        alts = cs[1] if isinstance(cs, tuple) and cs and cs[0] == "alts" else (cs,)
        return [{self(a): v for a, v in x} for x in alts]

    def conds(self, e, *terms, strict=False):
        """Alternatives of the conditions of the event, filters of the comprehensions included.

        strict: none at all when the filters exclude it."""
        alts = [{self(a): v for a, v in e.conds.items()}]
        seen = set()
        todo = list(terms) + list(e.args or ()) + [x[2] for x in e.loops or () if x[2]]
        comps = []
        for x in todo:
            if isinstance(x, tuple):
                comps += self.comps(x)
                c = self.source(x) if x and isinstance(x[0], str) else None
                if c is not None:
                    comps.append(c)
        for c in comps:
            if c in seen:
                continue
            seen.add(c)
            out = []
            for extra in self.filter_of(c):
                for a in alts:
                    if all(a.get(k, v) == v for k, v in extra.items()):
                        out.append({**a, **extra})
            alts = out if strict else out or alts
        return alts
