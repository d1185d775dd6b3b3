"""Ownership (alias depth) analysis on top of the value-flow terms.

Every value gets a level with respect to a set of foreign objects (the parser's
definitions, a caller's arguments...): 0 if the value may be one of those objects,
1 if it is a new container which may hold one of them, 2 if a container of such
containers, ... NEVER otherwise. Levels go through local variables, loops, fields,
parameters and results (least fixpoint over all the functions given). Changing an
object of level 0 is reported.
"""

from .flow import NONE, is_const, show

NEVER = 99

BUILTIN_METHODS = {n for c in (list, dict, set, str, tuple, bytes) for n in dir(c)}

ELEMENT_METHODS = {"get", "pop", "setdefault", "popitem", "__getitem__", "popleft"}
COPY_METHODS = {"copy", "values", "items", "keys", "__iter__"}
COPY_FUNCS = {"list", "tuple", "dict", "set", "frozenset", "sorted", "reversed",
              "iter", "enumerate", "zip", "filter", "copy.copy", "itertools.chain",
              "collections.OrderedDict", "collections.deque", "collections.ChainMap",
              "map", "next", "max", "min"}
IMMUTABLE_RESULT = {"str", "int", "len", "repr", "bool", "float", "isinstance", "type",
                    "range", "hash", "id", "format", "print", "getattr", "hasattr"}


class Alias:
    def __init__(self, program, flows, source, value_classes=(), fields=True):
        self.p = program
        self.flows = flows  # qual -> Flow
        self.source = source  # (term, flow) -> level or None
        self.value_classes = set(value_classes)
        self.FT = {}
        self.PT = {}
        self.RT = {}
        self.KT = {}  # (class, field, constant key) -> level, set by the constructor
        self.content = {}
        self._prepare()
        self._strong_keys()
        self._solve()

    # -- set up --------------------------------------------------------------------

    def _prepare(self):
        for q, fl in self.flows.items():
            c = {}
            for o, vals in fl.contents.items():
                c.setdefault(o, set()).update(vals)
            for e in fl.events:
                if e.kind != "mutate":
                    continue
                add = self._added(e)
                if add:
                    c.setdefault(fl.strip(e.target), set()).update(add)
            self.content[q] = c

    @staticmethod
    def _added(e):
        a = e.args or ()
        if e.how == "setitem" and len(a) == 2:
            if a[0][0] == "sl":
                return {("flat", a[1])}
            return {("one", a[1])}
        if e.how in ("append", "add", "appendleft") and a:
            return {("one", a[0])}
        if e.how == "insert" and len(a) > 1:
            return {("one", a[1])}
        if e.how in ("extend", "update", "augassign") and a:
            return {("flat", a[0])}
        if e.how == "setdefault" and len(a) > 1:
            return {("one", a[1])}
        return set()

    # -- levels ----------------------------------------------------------------------

    def level(self, t, q, seen=()):
        key = t
        if key in seen:
            return NEVER
        fl = self.flows[q]
        s = self.source(t, fl)
        if s is not None:
            return s
        seen = seen + (key,)
        lv = lambda x: self.level(x, q, seen)  # noqa
        op = t[0]
        if op == "ver":
            return lv(t[1])
        if op == "lvl":
            return t[1]
        if op == "param":
            return self.PT.get((q, t[1]), NEVER)
        if op == "attr":
            b = lv(t[1])
            if b == 0:
                return 0
            c = fl.typeof(t[1]) if t[1][0] != "cls" else self.p.classes.get(t[1][1])
            if c is not None:
                return min([self.FT.get((k.qual, t[2]), NEVER) for k in c.mro()]
                           + [self.FT.get((k.qual, t[2]), NEVER) for k in c.subclasses])
            return NEVER
        if op == "item" and is_const(t[2]) and t[1][0] == "attr":
            k = self.field_key(t, fl)
            if k is not None and k in self.KT:
                return self.KT[k]
        if op in ("item", "elem"):
            b = lv(t[1])
            if b == 0:
                return 0
            return b - 1 if b != NEVER else NEVER
        if op in ("key", "idx"):
            return NEVER
        if op == "slice":
            b = lv(t[1])
            return max(b, 1)
        if op == "star":
            return lv(t[1])
        if op == "bin":
            if t[1] in ("Add", "BitOr", "Mult", "Sub", "BitAnd"):
                return max(1, min(lv(t[2]), lv(t[3])))
            return NEVER
        if op in ("tuple", "list"):
            return self._container([("flat", x[1]) if x[0] == "star" else ("one", x)
                                    for x in t[1]], lv)
        if op == "kwdict":
            return self._container([("one", v) for _, v in t[1]], lv)
        if op == "alts":
            return min([lv(x) for x in t[1]] or [NEVER])
        if op == "comp":
            e = t[2]
            if t[1] == "dict" and e[0] == "tuple" and len(e[1]) == 2:
                e = e[1][1]
            x = lv(e)
            return x + 1 if x != NEVER else NEVER
        if op == "phi":
            vals = fl.phi.get(t[1:3]) or ()
            return min([lv(v) for v in vals] or [NEVER])
        if op == "obj":
            return self._container(self.content[q].get(t, ()), lv)
        if op == "new":
            if t[1] in self.value_classes:
                return self._container(
                    [("flat", x[1]) if x[0] == "star" else ("one", x) for x in t[2]]
                    + [("one", v) for _, v in t[3]], lv)
            return NEVER
        if op == "call":
            f, a = t[1], t[2]
            if f[0] == "func":
                return self.RT.get(f[1], NEVER)
            if f[0] == "method":
                b = lv(f[1])
                if f[2] in COPY_METHODS:
                    return max(b, 1)
                if self.named(f[2]):
                    return min(self.RT.get(x.qual, NEVER) for x in self.named(f[2]))
                if f[2] in ELEMENT_METHODS:
                    r = b if b in (0, NEVER) else b - 1
                    if f[2] in ("get", "setdefault", "pop") and len(a) > 1:
                        r = min(r, lv(a[1]))
                    return r
                return NEVER
            name = f[1] if f[0] in ("builtin", "ext") else None
            if name in IMMUTABLE_RESULT or name == "copy.deepcopy":
                return NEVER
            if name in ("next", "max", "min"):
                b = min([lv(x) for x in a] or [NEVER])
                return b if b in (0, NEVER) else b - 1
            if name in COPY_FUNCS:
                args = list(a) + [v for _, v in t[3]]
                b = min([lv(x[1] if x[0] == "star" else x) for x in args] or [NEVER])
                return max(b, 1)
            return NEVER
        return NEVER

    @staticmethod
    def _container(items, lv):
        best = NEVER
        for how, x in items:
            v = lv(x)
            if v == NEVER:
                continue
            best = min(best, v + 1 if how == "one" else max(v, 1))
        return best

    def named(self, name):
        """Methods of the package of that name (none for those of builtin containers)."""
        if name in BUILTIN_METHODS:
            return ()
        return [f for f in self.p.functions.values() if f.cls is not None and f.name == name
                and f.parent is None and not f.is_static and f.params and f.qual in self.flows]

    # -- fixpoint ----------------------------------------------------------------------

    def field_key(self, t, fl):
        """(class, field, key) of `object.field[key]`."""
        b = fl.strip(t[1])
        if b[0] != "attr" or not is_const(t[2]):
            return None
        c = fl.typeof(b[1])
        return (c.qual, b[2], t[2][2]) if c is not None else None

    def _strong_keys(self):
        """Keys of a field which its constructor always sets itself."""
        for q, fl in self.flows.items():
            if fl.entry.name != "__init__":
                continue
            for e in fl.events:
                if e.kind == "setattr" and e.target == ("param", "self"):
                    base = ("attr", e.target, e.args[0])
                    c = fl.typeof(e.target)
                    for e2 in fl.events:
                        if (e2.kind == "mutate" and e2.how == "setitem" and is_const(e2.args[0])
                                and e2.target in (e.value, fl.strip(e.value), base)
                                and c is not None and not e2.loops):
                            outs = [s for s, o in fl.outcomes if o[0] == "return"]
                            if all(any(x.node is e2.node for x in s.trace) for s in outs):
                                self.KT[(c.qual, e.args[0], e2.args[0][2])] = NEVER
                                self.KV = getattr(self, "KV", {})
                                self.KV.setdefault(
                                    (c.qual, e.args[0], e2.args[0][2]), set()).add((q, e2.args[1]))

    def field_root(self, t, fl):
        """((class, field), depth) of the container term, or None."""
        depth = 0
        while True:
            if t[0] == "ver":
                t = t[1]
            elif t[0] in ("item", "elem"):
                t = t[1]
                depth += 1
            elif t[0] == "attr":
                c = (self.p.classes.get(t[1][1]) if t[1][0] == "cls"
                     else fl.typeof(t[1]))
                return ((c.qual, t[2]), depth) if c is not None else None
            elif t[0] == "obj":
                return (("obj", t), depth) if depth else None
            else:
                return None

    def _lower_keys(self, t, fl, v):
        t = fl.strip(t)
        depth = 0
        while t[0] in ("item", "elem", "ver"):
            if t[0] == "item" and is_const(t[2]):
                k = self.field_key(t, fl)
                if k in self.KT:
                    return self._lower(self.KT, k, v + depth)
            if t[0] != "ver":
                depth += 1
            t = t[1]
        return False

    def _lower(self, table, key, v):
        if v < table.get(key, NEVER):
            table[key] = v
            return True
        return False

    def _solve(self):
        changed = True
        rounds = 0
        while changed and rounds < 12:
            changed = False
            rounds += 1
            for k, vals in getattr(self, "KV", {}).items():
                for q, v in vals:
                    changed |= self._lower(self.KT, k, self.level(v, q))
            for q, fl in self.flows.items():
                for e in fl.events:
                    if e.kind == "setattr" and e.value is not None:
                        c = (self.p.classes.get(e.target[1]) if e.target[0] == "cls"
                             else fl.typeof(e.target))
                        if c is not None:
                            changed |= self._lower(self.FT, (c.qual, e.args[0]),
                                                   self.level(e.value, q))
                    elif e.kind == "mutate":
                        r = self.field_root(e.target, fl)
                        if r is not None:
                            (key, depth) = r
                            for how, x in self._added(e):
                                v = self.level(x, q)
                                if v == NEVER:
                                    continue
                                v = v + 1 if how == "one" else max(v, 1)
                                if key[0] == "obj":
                                    # a container inside a local container
                                    if v + depth < self.level(key[1], q):
                                        self.content[q].setdefault(key[1], set()).add(
                                            ("one", ("lvl", v + depth - 1)))
                                        changed = True
                                else:
                                    changed |= self._lower(self.FT, key, depth + v)
                                    changed |= self._lower_keys(e.target, fl, v)
                    elif e.kind == "call" and e.target[0] in ("func", "cls"):
                        fi = None
                        args = e.args
                        if e.target[0] == "func":
                            fi = self.p.functions.get(e.target[1])
                        else:
                            c = self.p.classes.get(e.target[1])
                            fi = c.find("__init__") if c else None
                            args = (NONE,) + tuple(args)
                        if fi is None or fi.qual not in self.flows:
                            continue
                        env = fl.bind(fi.node, args, e.kwargs or (), _Empty)
                        for n, v in env.items():
                            if isinstance(v, tuple) and v:
                                changed |= self._lower(self.PT, (fi.qual, n),
                                                       self.level(v, q))
                    elif e.kind == "call" and e.target[0] == "method":
                        # a method of an object whose class is not known
                        for fi in self.named(e.target[2]):
                            env = fl.bind(fi.node, (e.target[1],) + tuple(e.args), e.kwargs or (), _Empty)
                            for n, v in env.items():
                                if isinstance(v, tuple) and v and n != fi.params[0]:
                                    changed |= self._lower(self.PT, (fi.qual, n),
                                                           self.level(v, q))
                for s, o in fl.outcomes:
                    if o[0] == "return":
                        changed |= self._lower(self.RT, q, self.level(o[1], q))

    # -- result ------------------------------------------------------------------------

    def writes(self):
        """[(qual of entry, event, level of the object changed)]"""
        for q, fl in self.flows.items():
            for e in fl.events:
                if e.kind in ("mutate", "setattr"):
                    yield q, e, self.level(fl.strip(e.target), q)


class _Empty:
    heap = {}
    conds = {}
    env = {}
