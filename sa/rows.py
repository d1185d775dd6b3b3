"""What a list built from another one holds, element by element.

A list made by a comprehension, by a loop appending to it, by list()/tuple() of these or
by any nesting of them is described by the collection it comes from, whether the order is
kept, and the alternatives (value, conditions) of what one element of that collection
gives (value None: nothing).
"""

from .flow import C, NONE, show  # noqa: F401
from .norm import Norm

ITEM = ("the", "item")
INDEX = ("the", "index")


class Unknown(Exception):
    pass


class Built:
    def __init__(self, source, alts, ordered, why=""):
        self.source = source
        self.alts = alts
        self.ordered = ordered
        self.why = why


class Rows:
    def __init__(self, fl):
        self.fl = fl
        self.norm = Norm(fl)

    def peel(self, t):
        """(term, order kept, what changes it) without the copies."""
        ordered, why = True, ""
        while True:
            t = self.fl.strip(t)
            if t[0] == "call" and t[1][0] == "builtin" and t[1][1] in ("list", "tuple", "iter") and len(t[2]) == 1:
                t = t[2][0]
            elif t[0] == "call" and t[1][0] == "builtin" and t[1][1] in ("reversed", "sorted", "set", "frozenset") and t[2]:
                ordered, why = False, t[1][1]
                t = t[2][0]
            elif t[0] == "call" and t[1][0] == "method" and t[1][2] == "copy" and not t[2]:
                t = t[1][1]
            elif t[0] == "slice":
                if not (t[2] in (NONE, C(0)) and t[3] == NONE and t[4] in (NONE, C(1))):
                    ordered, why = False, "a part of it"
                t = t[1]
            elif t[0] in ("list", "tuple") and len(t[1]) == 1 and t[1][0][0] == "star":
                t = t[1][0][1]
            else:
                return t, ordered, why

    def own(self, it):
        """The collection an iteration is over: the one under enumerate(), if any."""
        t, o, w = self.peel(it)
        if t[0] == "call" and t[1] == ("builtin", "enumerate") and t[2]:
            t2, o2, w2 = self.peel(t[2][0])
            return t2, o and o2, w or w2, t[2][0]
        return t, o, w, it

    def put(self, t, src, row=ITEM):
        """The term in which an element of the collection is called ITEM."""
        if not isinstance(t, tuple):
            if isinstance(t, frozenset):
                return frozenset(self.put(x, src, row) for x in t)
            return t
        if not t:
            return t
        if t[0] in ("elem", "idx") and len(t) > 1 and isinstance(t[1], tuple) and t[1] and isinstance(t[1][0], str):
            b, _, _, _ = self.own(t[1])
            if b == src:
                return row if t[0] == "elem" else INDEX
        new = tuple(self.put(x, src, row) for x in t)
        if new[0] == "item" and len(new) == 3:
            if isinstance(new[1], tuple) and new[1] and new[2] == INDEX and self.peel(new[1])[0] == src:
                return row
            if new[1][0] == "tuple" and new[2][0] == "const" and isinstance(new[2][2], int) \
                    and -len(new[1][1]) <= new[2][2] < len(new[1][1]):
                return new[1][1][new[2][2]]
        return new

    def built(self, t, depth=0):
        """Description of a list, down to a collection which is not built here."""
        if depth > 6:
            raise Unknown("too deep")
        t, ordered, why = self.peel(t)
        if t[0] == "comp" and t[1] in ("list", "gen"):
            src, o, w, _ = self.own(t[3])
            elts = t[2][1] if t[2][0] == "alts" else (t[2],)
            cs = t[4]
            cs = cs[1] if isinstance(cs, tuple) and cs and cs[0] == "alts" else (cs,)
            hows = t[6] if len(t) > 6 else None
            alts = []
            for i, e in enumerate(elts):
                c = dict(cs[i] if i < len(cs) else cs[0])
                more = [dict(c)]
                if hows is not None and i < len(hows):
                    more = [dict(c, **{}) | dict(h) for h in hows[i]] or more
                for m in more:
                    alts.append((self.put(e, src), {self.put(a, src): v for a, v in m.items()}))
            me = Built(src, alts, ordered and o, why or w)
        elif t[0] == "obj" and t[1] in ("list",):
            me = self.appended(t)
            me.ordered = me.ordered and ordered
            me.why = me.why or why
        elif t[0] == "phi":
            vals = {self.peel(x)[0] for x in self.fl.phi.get((t[1], t[2]), ())} - {t}
            if len(vals) != 1:
                raise Unknown("several lists")
            return self.built(vals.pop(), depth + 1)
        else:
            return Built(t, [(ITEM, {})], ordered, why)
        inner = self.built(me.source, depth + 1)
        if inner.source == me.source:
            return me
        # an element of the inner list gives an element of this one
        alts = []
        for v, c in inner.alts:
            if v is None:
                alts.append((None, c))
                continue
            for v2, c2 in me.alts:
                sub = {subst(a, ITEM, v): x for a, x in c2.items()}
                if any(c.get(a, x) is not x for a, x in sub.items()):
                    continue
                alts.append((subst(v2, ITEM, v) if v2 is not None else None, {**c, **sub}))
        return Built(inner.source, alts, me.ordered and inner.ordered, me.why or inner.why)

    def appended(self, t):
        """A list filled by a loop."""
        fl = self.fl
        loops = {}
        for e in fl.events:
            if e.kind == "mutate" and fl.strip(e.target) == t:
                if e.how != "append" or not e.loops:
                    raise Unknown("changed by %s" % e.how)
                loops[id(e.loops[-1][1])] = e
        if len(loops) != 1:
            raise Unknown("filled by %d loops" % len(loops))
        (node, ev), = loops.items()
        it = ev.loops[-1][2]
        if it is None:
            raise Unknown("filled by a while loop")
        src, o, w, _ = self.own(it)
        alts = []
        for x in fl.iterends:
            if not x.loops or id(x.loops[-1][1]) != node:
                continue
            mine = x.trace[len(x.args[0]):]
            got = [e for e in mine if e.kind == "mutate" and fl.strip(e.target) == t]
            conds = {self.put(a, src): v for a, v in x.conds.items()}
            conds = {a: v for a, v in conds.items() if has(a, ITEM) or has(a, INDEX)}
            if len(got) > 1:
                raise Unknown("several elements at once")
            alts.append((self.put(got[0].args[0], src) if got else None, conds))
        for x in fl.iterexits:
            if x.loops and id(x.loops[-1][1]) == node:
                o, w = False, "left before the end"
        if not alts:
            raise Unknown("no iteration")
        return Built(src, alts, o, w)


def has(t, x):
    if t == x:
        return True
    return isinstance(t, (tuple, frozenset)) and any(has(y, x) for y in t)


def subst(t, x, v):
    if t == x:
        return v
    if isinstance(t, tuple):
        new = tuple(subst(y, x, v) for y in t)
        if len(new) == 3 and new[0] == "item" and isinstance(new[1], tuple) and new[1][:1] == ("tuple",) \
                and new[2][0] == "const" and isinstance(new[2][2], int) \
                and -len(new[1][1]) <= new[2][2] < len(new[1][1]):
            return new[1][1][new[2][2]]
        return new
    if isinstance(t, frozenset):
        return frozenset(subst(y, x, v) for y in t)
    return t
