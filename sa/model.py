"""Transition relation of a loop body, evaluated over small abstract states.

The paths through the body come from the value-flow analysis; here their branch
conditions and updates are evaluated over an abstract state made of the variables
carried from one iteration to the next (flags, counters, lists of flags). Terms
which cannot be evaluated are unknown: both outcomes are considered.
"""

from .flow import Event, is_const, subterms


class Unknown(Exception):
    pass


class Path:
    """One path through the body of a loop."""

    def __init__(self, end):
        n = len(end.args[0])
        self.end = end
        self.events = end.trace[n:]
        self.conds = {}
        for e in self.events + (end,):
            for a, v in e.conds.items():
                self.conds.setdefault(a, v)


def paths_of(fl, want):
    """Paths of the loop chosen by `want(list of paths)`."""
    by = {}
    for e in fl.iterends:
        by.setdefault((e.loops[-1][0], len(e.loops)), []).append(Path(e))
    for k, ps in by.items():
        if want(ps):
            yield k, ps


class Machine:
    """Evaluator of terms over {variable: value} states.

    variables: list objects ("obj", ...) or loop carried ("phi", site, name);
    hook(term) gives the value of other terms, or raises Unknown.
    """

    def __init__(self, hook):
        self.hook = hook

    def ev(self, t, st, bind):
        op = t[0]
        if t in bind:
            return bind[t]
        if op == "const":
            return t[2]
        if op == "ver":
            if t[1] in st:
                v = st.get(("snap", t[1], t[2]))
                return list(v) if v is not None else list(st[t[1]])
            return self.ev(t[1], st, bind)
        if t in st:
            # without a version, the list as it was before its first change
            v = st.get(("snap", t, 0))
            if v is None:
                v = st[t]
            return list(v) if isinstance(v, (list, tuple)) else v
        e = lambda x: self.ev(x, st, bind)  # noqa
        if op == "not":
            return not e(t[1])
        if op == "un" and t[1] == "USub":
            return -e(t[2])
        if op in ("tuple", "list") and isinstance(t[1], tuple):
            return tuple(e(x) for x in t[1])
        if op == "bin":
            a, b = e(t[2]), e(t[3])
            try:
                return {"Add": lambda: a + b, "Sub": lambda: a - b, "BitAnd": lambda: a & b,
                        "BitOr": lambda: a | b, "Mult": lambda: a * b,
                        "BitXor": lambda: a ^ b}[t[1]]()
            except (KeyError, TypeError):
                raise Unknown
        if op in ("eq", "lt", "is", "in"):
            a, b = e(t[1]), (tuple(x[2] for x in t[2][1]) if t[2][0] == "consts" else e(t[2]))
            try:
                return {"eq": lambda: a == b, "lt": lambda: a < b,
                        "is": lambda: a is b or a == b and type(a) is type(b),
                        "in": lambda: a in b}[op]()
            except TypeError:
                raise Unknown
        if op == "item":
            b, k = e(t[1]), e(t[2])
            try:
                return b[k]
            except (TypeError, IndexError, KeyError):
                raise Unknown
        if op == "slice":
            b = e(t[1])
            try:
                return b[slice(*[e(x) for x in t[2:5]])]
            except TypeError:
                raise Unknown
        if op == "forall":
            its = e(t[1])
            elem = [x for x in subterms(t[3]) if x[0] == "elem" and x[1] == t[1]] if isinstance(
                t[3], tuple) else []
            if not isinstance(its, (list, tuple)):
                raise Unknown
            for x in its:
                ok = False
                for clause in t[3]:
                    b2 = dict(bind)
                    for a, v in clause:
                        for y in subterms(a):
                            if y[0] == "elem" and y[1] == t[1]:
                                b2[y] = x
                    if all(bool(self.ev(a, st, b2)) == v for a, v in clause):
                        ok = True
                        break
                if not ok:
                    return False
            return True
        if op == "call" and t[1][0] == "builtin" and not t[3]:
            f = t[1][1]
            if f in ("all", "any", "len", "bool", "sum", "list", "tuple", "reversed") and len(t[2]) == 1:
                a = e(t[2][0])
                try:
                    return {"all": all, "any": any, "len": len, "bool": bool, "sum": sum,
                            "list": list, "tuple": tuple,
                            "reversed": lambda x: list(x)[::-1]}[f](a)
                except TypeError:
                    raise Unknown
        if op == "call" and t[1][0] == "method" and t[1][2] == "pop":
            v = st.get(("popped", t))
            if v is not None:
                return v[0]
        if op == "call" and t[1][0] == "method" and t[1][2] == "copy":
            return e(t[1][1])
        return self.hook(t)

    def truth(self, atom, st):
        try:
            return bool(self.ev(atom, st, {}))
        except Unknown:
            return None

    def feasible(self, path, st):
        """The conditions of the path can hold from the state (before updates)."""
        cur = dict(st)
        seen = set()
        for e in path.events + (path.end,):
            for a, v in e.conds.items():
                if a in seen:
                    continue
                seen.add(a)
                w = self.truth(a, cur)
                if w is not None and w != v:
                    return None
            if isinstance(e, Event) and e.kind == "mutate":
                if not self.apply(e, cur):
                    return None
        return cur

    def apply(self, e, cur):
        """Effect of a mutation on the list variables; False when impossible."""
        o = e.target

        def val(t):
            if t[0] == "obj" and t not in cur:
                items = e.state.get((t, "#items"))
                if items is not None:
                    return tuple(val(x) for x in items)
            if t[0] == "tuple":
                return tuple(val(x) for x in t[1])
            try:
                v = self.ev(t, cur, {})
                return tuple(v) if isinstance(v, list) else v
            except Unknown:
                return "?"

        if o not in cur:
            # a list held by a frame
            if o[0] == "item":
                base = o[1]
                while base[0] == "ver":
                    base = base[1]
                if cur.get(base) is not None:
                    try:
                        fr = list(cur[base])
                        i = val(o[2])
                        x = list(fr[i])
                        x[val(e.args[0])] = val(e.args[1])
                        fr[i] = tuple(x)
                        cur[base] = tuple(fr)
                        cur[("snap", base, e.state.get((base, "#ver"), 0))] = cur[base]
                    except (IndexError, TypeError):
                        return False
            return True
        ver = e.state.get((o, "#ver"), 0)
        old = cur[o]
        cur[("snap", o, ver)] = old
        if old is None:
            return True
        new = list(old)
        try:
            a = e.args
            if e.how == "append":
                new.append(val(a[0]))
            elif e.how == "pop":
                i = val(a[0]) if a else -1
                new.pop(i)
            elif e.how == "setitem":
                new[val(a[0])] = val(a[1])
            elif e.how == "delitem":
                del new[val(a[0])]
            elif e.how == "insert":
                new.insert(val(a[0]), val(a[1]))
            elif e.how == "clear":
                new.clear()
            elif e.how in ("extend", "__iadd__"):
                x = val(a[0])
                new.extend(x)
            else:
                cur[o] = None
                return True
        except (IndexError, TypeError):
            return False
        cur[o] = tuple(new)
        nv = ("+", ver) if not isinstance(ver, int) else ver + 1
        cur[("snap", o, nv)] = cur[o]
        return True

    def step(self, path, st, variables):
        """State after the path from `st`, or None when the path is impossible."""
        cur = self.feasible(path, st)
        if cur is None:
            return None
        out = {}
        env = path.end.value
        for v in variables:
            if v[0] == "phi":
                t = env.get(v[2])
                if t is None:
                    out[v] = st[v]
                    continue
                try:
                    x = self.ev(t, cur, {})
                    out[v] = tuple(x) if isinstance(x, list) else x
                except Unknown:
                    out[v] = "?"
            else:
                out[v] = cur[v]
        return out


def initial(t, fl):
    """Value of a variable before the loop, if simple (else Unknown)."""
    if is_const(t) and isinstance(t[2], (bool, int, type(None))):
        return t[2]
    items = None
    if t[0] == "tuple":
        items = t[1]
    elif t[0] == "obj" and t[1] == "list":
        for e in fl.events:
            items = e.state.get((t, "#items"))
            if items is not None:
                break
    if items is None:
        return Unknown
    vals = [initial(x, fl) for x in items]
    return Unknown if any(v is Unknown for v in vals) else tuple(vals)
