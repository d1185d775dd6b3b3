"""Path-sensitive value-flow analysis over the syntax tree.

An abstract interpretation in the domain of uninterpreted (Herbrand) terms: the
value of every expression is a term built from parameters, fields, external
calls and constants; two values are known to be equal only if their terms are.
Branch conditions are kept as literals over such terms and only used for
propositional consistency (no solver, no arithmetic). Loops are analysed once
from a state in which everything the body may change has been generalised
(phi terms), helpers of the package are inlined, so that an extracted or inlined
helper, a renamed local or reordered independent statements give the same
facts. The analysed code is never executed.

The result of analysing an entry point is a list of events (calls, mutations,
returns, raises), each with the path facts (conditions, locks held, enclosing
loops and handlers) under which it may happen.
"""

import ast
import builtins as _b

from .program import ClassInfo, FuncInfo, Module, AnalysisBroken

BUILTINS = set(dir(_b))
EXC_BASES = {
    n: [c.__name__ for c in getattr(_b, n).__mro__]
    for n in dir(_b)
    if isinstance(getattr(_b, n), type) and issubclass(getattr(_b, n), BaseException)
}

#: functions never returning None
NOT_NONE = {"os.path." + x for x in (
    "join", "basename", "dirname", "realpath", "abspath", "normpath", "normcase", "expanduser",
    "isfile", "isdir", "exists", "getmtime", "getsize", "splitext", "split")}

MUTATORS = {
    "append", "extend", "insert", "remove", "pop", "clear", "sort", "reverse",
    "update", "setdefault", "popitem", "add", "discard", "__setitem__",
    "__delitem__", "__iadd__", "difference_update", "intersection_update",
    "symmetric_difference_update", "appendleft", "popleft", "extendleft",
    "rotate", "move_to_end",
}
# methods / functions returning a new container sharing the items
COPIERS = {"list", "tuple", "dict", "set", "frozenset", "sorted", "reversed",
           "copy.copy", "copy", "iter", "collections.deque", "collections.OrderedDict"}
NOISE = {"debug", "info", "warning", "warn", "error", "exception", "critical", "log"}


def C(v):
    return ("const", type(v).__name__, v)


NONE = C(None)
TRUE = C(True)
FALSE = C(False)


def is_const(t):
    return t[0] == "const"


def subterms(t):
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                yield x
            stack.extend(y for y in x if isinstance(y, tuple))


def mentions(t, sub):
    if t == sub:
        return True
    if isinstance(t, tuple):
        for y in t:
            if isinstance(y, tuple) and mentions(y, sub):
                return True
    return False


def frozen(t, base, old):
    """`t` where the items of `base` are those it had in its version `old`."""
    if t[0] in ("item", "slice") and len(t) > 1 and t[1] == base:
        return (t[0], ("ver", base, old)) + t[2:]
    return tuple(frozen(x, base, old) if isinstance(x, tuple) and x else x for x in t)


def live(t, sub):
    """Like mentions, for a content of `sub` which changes: an item already taken out of
    it by a loop stays what it is."""
    if t == sub:
        return True
    if isinstance(t, tuple):
        if len(t) > 1 and t[0] in ("elem", "idx") and t[1] == sub:
            return False
        if len(t) > 1 and t[0] in ("elem", "idx", "key", "val") and isinstance(t[1], tuple) and (
                t[1][0] == "comp" and t[1][1] in ("list", "dict", "set")):
            return False
        if len(t) > 2 and t[0] == "item" and isinstance(t[1], tuple) and (
                t[1][0] == "comp" and t[1][1] in ("list", "dict")):
            return live(t[2], sub)
        for y in t:
            if isinstance(y, tuple) and live(y, sub):
                return True
    return False


def show(t, depth=0):
    """Readable form of a term for reports."""
    if not isinstance(t, tuple) or not t:
        return str(t)
    op = t[0]
    if depth > 6:
        return "..."
    s = lambda x: show(x, depth + 1)  # noqa
    if op == "const":
        return repr(t[2])
    if op == "param":
        return t[1]
    if op == "attr":
        return "%s.%s" % (s(t[1]), t[2])
    if op == "item":
        return "%s[%s]" % (s(t[1]), s(t[2]))
    if op == "elem":
        return "<item of %s>" % s(t[1])
    if op == "idx":
        return "<index in %s>" % s(t[1])
    if op == "slice":
        return "%s[%s]" % (s(t[1]), ":".join("" if x == NONE else s(x) for x in t[2:5]))
    if op == "call":
        return "%s(%s)" % (
            s(t[1]),
            ", ".join([s(a) for a in t[2]] + ["%s=%s" % (k, s(v)) for k, v in t[3]]),
        )
    if op in ("ext", "func", "cls", "builtin"):
        return t[1]
    if op == "method":
        return "%s.%s" % (s(t[1]), t[2])
    if op == "bin":
        return "(%s %s %s)" % (s(t[2]), t[1], s(t[3]))
    if op == "not":
        return "not %s" % s(t[1])
    if op in ("lt", "eq", "is", "in"):
        o = {"lt": "<", "eq": "==", "is": "is", "in": "in"}[op]
        return "%s %s %s" % (s(t[1]), o, s(t[2]))
    if op in ("tuple", "list"):
        return "(%s)" % ", ".join(s(x) for x in t[1])
    if op == "consts":
        return repr(tuple(x[2] for x in t[1]))
    if op == "obj":
        return "<%s@%s>" % (t[1], t[2][0] if isinstance(t[2], tuple) else t[2])
    if op == "ver":
        return s(t[1])
    if op == "phi":
        return "<%s in loop>" % t[2]
    if op == "new":
        return "%s(...)" % t[1]
    if op == "global":
        return t[2]
    if op == "fmt":
        return "fmt(%s)" % ", ".join(s(x) for x in t[1])
    if op == "comp":
        return "[%s for .. in %s]" % (s(t[2]), s(t[3]))
    return "%s(%s)" % (op, ", ".join(s(x) for x in t[1:] if isinstance(x, tuple)))


class Event:
    __slots__ = ("kind", "target", "args", "kwargs", "value", "node", "func",
                 "conds", "held", "loops", "tries", "stack", "trace", "state",
                 "how", "seq")

    def __init__(self, kind, **kw):
        self.kind = kind
        for k in self.__slots__[1:]:
            setattr(self, k, kw.get(k))

    @property
    def where(self):
        return "%s:%d" % (self.func.module.rel, getattr(self.node, "lineno", 0))

    def __repr__(self):
        return "<%s %s @%s>" % (self.kind, show(self.target) if self.target else "",
                                getattr(self.node, "lineno", 0))


class State:
    __slots__ = ("env", "heap", "conds", "trace", "held", "saved")

    def __init__(self):
        self.env = {}
        self.heap = {}
        self.conds = {}
        self.trace = ()
        self.held = ()
        self.saved = ()

    def copy(self):
        s = State()
        s.env = dict(self.env)
        s.heap = dict(self.heap)
        s.conds = self.conds
        s.trace = self.trace
        s.held = self.held
        s.saved = self.saved
        return s

    def key(self):
        return (
            tuple(sorted((k, v) for k, v in self.env.items() if not k.startswith("%"))
                  ) if False else frozenset(
                (k, v) for k, v in self.env.items() if not k.startswith("%")),
            frozenset(self.heap.items()),
            frozenset(self.conds.items()),
            self.held,
            tuple(id(e) for e in self.trace),
        )


class Frame:
    _n = 0

    def __init__(self, func, depth, self_cls=None):
        self.func = func
        self.depth = depth
        self.raises = []
        Frame._n += 1
        self.id = Frame._n


class LimitReached(Exception):
    pass


class Flow:
    """One analysis run from one entry point.

    opaque : callable(FuncInfo) -> bool, functions not inlined
    types : callable(term) -> ClassInfo or None, extra type facts
    implicit : model implicit exceptions of calls (inside try statements)
    """

    def __init__(self, program, opaque=None, types=None, max_depth=8,
                 max_states=3000, implicit=True, inline_init=False, keep_noise=False,
                 assume=None, unroll=True, fail_del=False):
        self.p = program
        self.fail_del = fail_del  # removing a missing key raises KeyError
        self.opaque = opaque or (lambda f: False)
        self.extra_types = types or (lambda t: None)
        self.max_depth = max_depth
        self.max_states = max_states
        self.implicit = implicit
        self.inline_init = inline_init
        self.keep_noise = keep_noise
        self.unroll = unroll
        self.events = []
        self.iterends = []  # one per path through a loop body
        self.iterexits = []  # one per path leaving a loop early
        self.phi = {}
        self.phi_init = {}  # value before the loop
        self.closures = {}
        self.contents = {}  # container term -> what was put in it
        self.kinds = {}
        self.frames = []
        self.loops = []
        self.tries = []
        self.muted = 0
        self.visited = set()
        self.nseq = 0
        self.self_cls = None
        self.self_name = "self"
        self.assume_facts = assume or {}
        self.limit_hit = False
        self.nodes = 0

    # -- entry ---------------------------------------------------------------

    def run(self, func, args=None, self_cls=None, state=None):
        """Analyse `func` with symbolic parameters; return [(state, outcome)]."""
        st = state or State()
        st.conds = dict(st.conds)
        st.conds.update(self.assume_facts)
        frame = Frame(func, 0)
        self.frames.append(frame)
        self.self_cls = self_cls or func.cls
        if func.cls is not None and func.params and not func.is_static and (
                not func.is_classmethod and func.name != "__new__"):
            self.self_name = func.params[0]
        env = {}
        args = args or {}
        for n in func.params:
            env[n] = args.get(n, ("param", n))
        st.env = env
        try:
            outs = self.exec_body(func.node.body, [st])
        finally:
            self.frames.pop()
        res = []
        for s, o in outs:
            if o is None:
                o = ("return", NONE)
            res.append((s, o))
        return res

    # -- helpers ---------------------------------------------------------------

    @property
    def frame(self):
        return self.frames[-1]

    def site(self, node):
        stack = tuple(
            getattr(f, "callnode", 0) for f in self.frames[1:]
        )
        return (getattr(node, "lineno", 0), getattr(node, "col_offset", 0),
                self.frame.func.qual) + stack

    def emit(self, st, kind, node, **kw):
        if self.muted:
            e = Event(kind, node=node, func=self.frame.func, **kw)
            return e
        self.nseq += 1
        e = Event(kind, node=node, func=self.frame.func, conds=st.conds,
                  held=st.held, loops=tuple(self.loops), tries=tuple(self.tries),
                  stack=tuple(f.func.qual for f in self.frames), seq=self.nseq,
                  trace=st.trace, state=dict(st.heap), **kw)
        self.events.append(e)
        st.trace = st.trace + (e,)
        return e

    # typing

    def typeof(self, t):
        op = t[0]
        if op == "ver":
            return self.typeof(t[1])
        if op == "new":
            return self.p.classes.get(t[1])
        if op == "param" and t[1] == self.self_name and self.self_cls is not None:
            return self.self_cls
        r = self.extra_types(t)
        if r is not None:
            return r
        if op == "phi":
            ph = self.phi.get(t[1:3])
            for v in list(ph or ()):
                if v != t and v[0] != "phi":
                    c = self.typeof(v)
                    if c is not None:
                        return c
        return None

    def ver(self, st, t):
        n = st.heap.get((t, "#ver"))
        return ("ver", t, n) if n else t

    # -- conditions --------------------------------------------------------------

    def norm(self, t):
        """Normalise a boolean term into (atom, polarity)."""
        pol = True
        while True:
            if t[0] == "not":
                t, pol = t[1], not pol
                continue
            if t[0] == "call" and t[1] == ("builtin", "bool") and len(t[2]) == 1:
                t = t[2][0]
                continue
            # len(x) comparisons -> truth of x
            if t[0] in ("lt", "eq"):
                a, b = t[1], t[2]
                if t[0] == "lt" and a == C(0) and self._len_of(b):
                    t = self._len_of(b)
                    continue
                if t[0] == "lt" and b == C(1) and self._len_of(a):
                    t, pol = self._len_of(a), not pol
                    continue
                if t[0] == "eq" and b == C(0) and self._len_of(a):
                    t, pol = self._len_of(a), not pol
                    continue
                if t[0] == "eq" and a == C(0) and self._len_of(b):
                    t, pol = self._len_of(b), not pol
                    continue
                if t[0] == "eq" and TRUE in (a, b):
                    t = a if b == TRUE else b
                    continue
            if self._len_of(t):
                t = self._len_of(t)
                continue
            return t, pol

    @staticmethod
    def _len_of(t):
        if t[0] == "call" and t[1] == ("builtin", "len") and len(t[2]) == 1:
            return t[2][0]
        return None

    def decide(self, st, t):
        """True / False / None for a boolean term in a state."""
        atom, pol = self.norm(t)
        r = self._decide_atom(st, atom)
        return None if r is None else (r == pol)

    def _decide_atom(self, st, a):
        if a in st.conds:
            return st.conds[a]
        op = a[0]
        if op == "const":
            return bool(a[2])
        if op == "and":
            rs = [self.decide(st, x) for x in a[1]]
            if False in rs:
                return False
            return True if all(r is True for r in rs) else None
        if op == "or":
            rs = [self.decide(st, x) for x in a[1]]
            if True in rs:
                return True
            return False if all(r is False for r in rs) else None
        if op == "eq":
            return self._decide_eq(st, a[1], a[2])
        if op == "in" and a[2][0] == "consts":
            x = a[1]
            rs = [self._decide_eq(st, x, c) if x != c else True for c in a[2][1]]
            if True in rs:
                return True
            if rs and all(r is False for r in rs):
                return False
            if not rs:
                return False
            for b, v in st.conds.items():
                if b[0] == "in" and b[1] == x and b[2][0] == "consts" and v:
                    if set(b[2][1]) <= set(a[2][1]):
                        return True
            return None
        if op == "is":
            x, y = a[1], a[2]
            if x == y:
                return True
            if is_const(x) and is_const(y):
                return False
            if y == NONE:
                if x[0] in ("obj", "new", "fmt", "tuple", "list", "comp", "closure",
                            "func", "cls", "bin", "slice", "dict", "lambda"):
                    return False
                if x[0] == "call" and x[1][0] == "ext" and x[1][1] in NOT_NONE:
                    return False
                if st.conds.get(x) is True:
                    return False
                for b, v in st.conds.items():
                    if v and b[0] == "eq" and x in b[1:] and any(
                        is_const(z) and z != NONE for z in b[1:]
                    ):
                        return False
                    if v and b[0] == "in" and b[1] == x and b[2][0] == "consts" and (
                        NONE not in b[2][1]
                    ):
                        return False
            return None
        if op in ("new", "func", "cls", "closure", "lambda"):
            c = self.p.classes.get(a[1]) if op == "new" else None
            return None if c is not None else True
        if op in ("tuple",):
            return bool(a[1])
        if st.conds.get(("is", a, NONE)) is True:
            return False
        if op == "call" and (st.conds.get(("call", ("ext", "os.path.isfile"), (a,), ())) is True
                             or st.conds.get(("call", ("ext", "os.path.isdir"), (a,), ())) is True):
            return True  # an existing path is not empty
        if op == "obj":
            items = st.heap.get((a, "#items"))
            if items is not None and not st.heap.get((a, "#open")):
                return bool(items)
        for b, v in st.conds.items():
            if v and b[0] == "eq" and a in b[1:]:
                o = b[2] if b[1] == a else b[1]
                if is_const(o):
                    return bool(o[2])
        return None

    def _decide_eq(self, st, x, y):
        if x == y and x[0] not in ("unk",):
            return True
        if is_const(x) and is_const(y):
            return x[2] == y[2]
        a = ("eq",) + tuple(sorted((x, y), key=repr))
        if a in st.conds:
            return st.conds[a]
        if is_const(x):
            x, y = y, x
        if is_const(y):
            for b, v in st.conds.items():
                if b[0] == "eq" and x in b[1:]:
                    o = b[2] if b[1] == x else b[1]
                    if v and is_const(o):
                        return o[2] == y[2]
                elif b[0] == "in" and b[1] == x and b[2][0] == "consts":
                    if v and y not in b[2][1]:
                        return False
                    if not v and y in b[2][1]:
                        return False
                elif b == ("is", x, NONE) and v and y != NONE:
                    return False
                elif b == x and v is False and y[2]:
                    return False
            if x[0] in ("obj", "new", "tuple", "closure") and y[2] is None:
                return False
        return None

    def assume(self, st, t, want):
        """States refined with `t` being `want` (list, possibly empty)."""
        r = self.decide(st, t)
        if r is not None:
            return [st] if r == want else []
        atom, pol = self.norm(t)
        if not pol:
            want = not want
        if atom[0] in ("and", "or"):
            conj = (atom[0] == "and") == want
            parts = atom[1]
            if conj:
                sts = [st]
                for p in parts:
                    sts = [s2 for s in sts for s2 in self.assume(s, p, want)]
                return sts
            out = []
            cur = [st]
            for p in parts:
                nxt = []
                for s in cur:
                    out.extend(self.assume(s.copy(), p, want))
                    nxt.extend(self.assume(s.copy(), p, not want))
                cur = nxt
            return out
        st = st.copy()
        st.conds = dict(st.conds)
        st.conds[atom] = want
        return [st]

    # -- statements ---------------------------------------------------------------

    def exec_body(self, body, states):
        """Run statements; returns [(state, outcome)]."""
        out = []
        cur = states
        for stmt in body:
            nxt = []
            for s in cur:
                for s2, o in self.exec_stmt(stmt, s):
                    if o is None:
                        nxt.append(s2)
                    else:
                        out.append((s2, o))
            cur = self.dedupe(nxt)
            if not cur:
                break
        out.extend((s, None) for s in cur)
        return out

    def dedupe(self, states):
        if len(states) <= 1:
            return states
        seen = {}
        for s in states:
            seen.setdefault(s.key(), s)
        states = list(seen.values())
        if len(states) <= 1:
            return states
        # merge states only differing by the polarity of one condition
        groups = {}
        for s in states:
            k = s.key()
            groups.setdefault((k[0], k[1], k[3], k[4]), []).append(s)
        res = []
        for g in groups.values():
            changed = True
            while changed and len(g) > 1:
                changed = False
                index = {frozenset(s.conds.items()): s for s in g}
                for s in g:
                    for a, v in s.conds.items():
                        other = frozenset(
                            (b, (not w) if b == a else w) for b, w in s.conds.items()
                        )
                        o = index.get(other)
                        if o is not None and o is not s:
                            m = s.copy()
                            m.conds = {b: w for b, w in s.conds.items() if b != a}
                            g = [x for x in g if x is not s and x is not o] + [m]
                            changed = True
                            break
                    if changed:
                        break
            res.extend(g)
        if len(res) > self.max_states:
            raise LimitReached(
                "more than %d path states in %s" % (self.max_states, self.frame.func.qual)
            )
        return res

    def exec_stmt(self, stmt, st):
        fr = self.frame
        mark = len(fr.raises)
        self.nodes += 1
        if not self.muted:
            self.visited.add((fr.func.module.name, getattr(stmt, "lineno", 0)))
        st = st.copy()
        meth = getattr(self, "s_" + type(stmt).__name__, None)
        if meth is None:
            outs = [(st, None)]
        else:
            outs = list(meth(stmt, st))
        new = fr.raises[mark:]
        del fr.raises[mark:]
        outs.extend((s, ("raise", exc)) for s, exc in new)
        return outs

    def s_Pass(self, n, st):
        yield st, None

    def s_Expr(self, n, st):
        if isinstance(n.value, ast.Constant):
            yield st, None
            return
        for s, v in self.ev(n.value, st):
            yield s, None

    def s_Return(self, n, st):
        if n.value is None:
            yield st, ("return", NONE, n)
            return
        for s, v in self.ev(n.value, st):
            yield s, ("return", v, n)

    def s_Break(self, n, st):
        yield st, ("break",)

    def s_Continue(self, n, st):
        yield st, ("continue",)

    def s_Assign(self, n, st):
        for s, v in self.ev(n.value, st):
            sts = [s]
            for t in n.targets:
                sts = [y for x in sts for y in self.assign(t, v, x, n)]
            for x in sts:
                yield x, None

    def s_AnnAssign(self, n, st):
        if n.value is None:
            yield st, None
            return
        for s, v in self.ev(n.value, st):
            for x in self.assign(n.target, v, s, n):
                yield x, None

    def s_AugAssign(self, n, st):
        op = type(n.op).__name__
        for s, cur in self.ev(n.target, st):
            for s2, v in self.ev(n.value, s):
                new = self.binop(op, cur, v, s2, n)
                if op == "Add" or op in ("BitOr", "Mult", "BitAnd", "Sub"):
                    # may be an in-place operation on a mutable object
                    if not self.immutable_value(cur, s2) and (
                            cur[0] in ("obj", "ver") or not self.immutable_value(v, s2)):
                        e = self.emit(s2, "mutate", n, target=self.strip(cur),
                                      how="augassign", args=(v,), value=new)
                        if cur[0] in ("obj", "ver"):
                            # same object, new content
                            base = self.strip(cur)
                            both = None
                            if op == "Add" and self.unroll == "all":
                                both = [self.literal_items(x, s2) for x in (base, v)]
                            self.touch(s2, base)
                            if both and None not in both:
                                s2.heap[(base, "#items")] = tuple(both[0] + both[1])
                            new = self.ver(s2, base)
                for x in self.assign(n.target, new, s2, n, aug=True):
                    yield x, None

    def immutable_value(self, t, st):
        """The value certainly is a number/str/tuple (+= rebinding only)."""
        op = t[0]
        if op == "const":
            return True
        if op in ("fmt", "tuple", "idx", "lt", "eq", "is", "in", "not"):
            return True
        if op == "bin":
            return self.immutable_value(t[2], st) or self.immutable_value(t[3], st)
        if op == "phi":
            vals = self.phi.get(t[1:3]) or ()
            return any(v[0] == "const" for v in vals)
        if op == "call":
            f = t[1]
            if f[0] == "builtin" and f[1] in ("str", "int", "len", "tuple", "repr", "float"):
                return True
            if f[0] == "method" and f[2] in ("format", "join", "strip", "replace", "lower"):
                return True
        return False

    def s_Delete(self, n, st):
        sts = [st]
        for t in n.targets:
            nxt = []
            for s in sts:
                if isinstance(t, ast.Name):
                    s.env.pop(t.id, None)
                    nxt.append(s)
                elif isinstance(t, ast.Subscript):
                    for s2, b in self.ev(t.value, s):
                        for s3, k in self.ev_slice(t.slice, s2):
                            base = self.strip(b)
                            before = self.decide(s3, ("in", k, b)) if self.fail_del else None
                            left = self.literal_items(b, s3) if self.unroll == "all" else None
                            self.emit(s3, "mutate", t, target=base, how="delitem",
                                      args=(k,))
                            self.touch(s3, base)
                            if left is not None and base[0] != "tuple":
                                try:
                                    if is_const(k):
                                        del left[k[2]]
                                    elif k[0] == "slice" and all(is_const(x) for x in k[1:]):
                                        del left[slice(*[x[2] for x in k[1:]])]
                                    else:
                                        left = None
                                except IndexError:
                                    self.frame.raises.append((s3, ("exc", "IndexError", self.site(t))))
                                    continue
                                except TypeError:
                                    left = None
                                if left is not None:
                                    s3.heap[(base, "#items")] = tuple(left)
                            if self.fail_del and before is True or isinstance(t.slice, ast.Slice):
                                pass
                            elif self.fail_del:
                                c = s3.copy()
                                c.trace = c.trace + (Event("fail", node=t, func=self.frame.func, target=None),)
                                self.frame.raises.append((c, ("exc", "KeyError", self.site(t))))
                            else:
                                self.maybe_raise(s3, t)
                            nxt.append(s3)
                elif isinstance(t, ast.Attribute):
                    for s2, b in self.ev(t.value, s):
                        self.emit(s2, "mutate", t, target=self.strip(b),
                                  how="delattr", args=(C(t.attr),))
                        s2.heap.pop((self.strip(b), "." + t.attr), None)
                        nxt.append(s2)
                else:
                    nxt.append(s)
            sts = nxt
        for s in sts:
            yield s, None

    def s_If(self, n, st):
        for s, want in self.cond(n.test, st):
            for r in self.exec_body(n.body if want else n.orelse, [s]):
                yield r

    def s_Assert(self, n, st):
        for s, want in self.cond(n.test, st):
            if want:
                yield s, None
            else:
                yield s, ("raise", ("exc", "AssertionError", self.site(n)), n)

    def s_Raise(self, n, st):
        if n.exc is None:
            cur = st.env.get("%exc", ("exc", "?", self.site(n)))
            self.emit(st, "raise", n, target=cur, how="reraise")
            yield st, ("raise", cur)
            return
        for s, v in self.ev(n.exc, st):
            name = self.exc_name(v)
            e = ("exc", name, self.site(n))
            self.emit(s, "raise", n, target=e, value=v, how="raise")
            yield s, ("raise", e)

    def exc_name(self, v):
        if v[0] == "call":
            return self.exc_name(v[1])
        if v[0] == "builtin":
            return v[1]
        if v[0] in ("cls", "new"):
            return v[1]
        if v[0] == "exc":
            return v[1]
        if v[0] == "ext":
            return v[1].rsplit(".", 1)[-1]
        return "?"

    def exc_matches(self, exc, names):
        """True / False / None: does a handler for `names` catch `exc`."""
        name = exc[1]
        if "BaseException" in names:
            return True
        if name == "?":
            return True if "Exception" in names else None
        bases = [name]
        if name in EXC_BASES:
            bases = EXC_BASES[name]
        else:
            c = self.p.classes.get(name)
            if c is not None:
                bases = []
                for k in c.mro():
                    bases.append(k.qual)
                    bases.append(k.name)
                    for b in k.bases:
                        if isinstance(b, str):
                            nm = b.rsplit(".", 1)[-1]
                            bases.extend(EXC_BASES.get(nm, [nm]))
            else:
                return True if "Exception" in names else None
        return any(x in names for x in bases)

    def handler_names(self, h):
        if h.type is None:
            return ["BaseException"]
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        out = []
        for t in ts:
            d = self.p.resolve_dotted(self.frame.func.module, t) or "?"
            r = self.p.lookup_dotted(d)
            if isinstance(r, ClassInfo):
                out.append(r.qual)
                out.append(r.name)
            else:
                nm = d.rsplit(".", 1)[-1]
                out.append({"IOError": "OSError", "EnvironmentError": "OSError"}.get(nm, nm))
        return out

    def s_Try(self, n, st):
        self.tries.append(n)
        try:
            outs = self.exec_body(n.body, [st])
        finally:
            self.tries.pop()
        res = []
        raised = []
        for s, o in outs:
            if o is not None and o[0] == "raise":
                raised.append((s, o))
            elif o is None and n.orelse:
                res.extend(self.exec_body(n.orelse, [s]))
            else:
                res.append((s, o))
        # identical exceptional states are merged
        seen = set()
        for s, o in raised:
            k = (s.key()[:4], o[1][1], tuple(id(e) for e in s.trace))
            if k in seen:
                continue
            seen.add(k)
            pending = [(s, o)]
            for h in n.handlers:
                nxt = []
                names = self.handler_names(h)
                for s2, o2 in pending:
                    m = self.exc_matches(o2[1], names)
                    if m is not False:
                        s3 = s2.copy()
                        prev = s3.env.get("%exc")
                        s3.env["%exc"] = o2[1]
                        if h.name:
                            s3.env[h.name] = o2[1]
                        self.emit(s3, "handler", h, target=o2[1], how=tuple(names))
                        for s4, o4 in self.exec_body(h.body, [s3]):
                            s4.env.pop("%exc", None)
                            if prev is not None:
                                s4.env["%exc"] = prev
                            res.append((s4, o4))
                    if m is not True:
                        nxt.append((s2, o2))
                pending = nxt
            res.extend(pending)
        if n.finalbody:
            fin = []
            for s, o in res:
                for s2, o2 in self.exec_body(n.finalbody, [s]):
                    fin.append((s2, o if o2 is None else o2))
            res = fin
        return res

    s_TryStar = s_Try

    def s_With(self, n, st):
        yield from self._with(n, list(n.items), st)

    s_AsyncWith = s_With

    def _with(self, n, items, st):
        if not items:
            yield from self.exec_body(n.body, [st])
            return
        it = items[0]
        for s, v in self.ev(it.context_expr, st):
            s = s.copy()
            if v[0] == "call" and v[1][0] == "func":
                fi = self.p.functions.get(v[1][1])
                if fi is not None and "contextmanager" in fi.decorators and not any(
                        fr.func is fi for fr in self.frames):
                    yield from self._with_generator(n, items, s, v, fi)
                    continue
            cm = self.strip(v)
            self.emit(s, "with", it.context_expr, target=cm)
            s.held = s.held + (("with", cm),)
            sts = [s]
            if it.optional_vars is not None:
                sts = self.assign(it.optional_vars, v, s, n)
            for s2 in sts:
                for s3, o in self._with(n, items[1:], s2):
                    s3 = s3.copy()
                    h = list(s3.held)
                    for i in range(len(h) - 1, -1, -1):
                        if h[i] == ("with", cm):
                            del h[i]
                            break
                    s3.held = tuple(h)
                    if v[0] == "call" and v[1] == ("ext", "contextlib.ExitStack"):
                        s3.held = st.held
                    # contextlib.suppress swallows exceptions
                    if o is not None and o[0] == "raise" and v[0] == "call" and (
                        v[1] == ("ext", "contextlib.suppress")
                    ):
                        names = [self.exc_name(a) for a in v[2]]
                        m = self.exc_matches(o[1], names)
                        if m is not False:
                            yield s3, None
                        if m is True:
                            continue
                    yield s3, o

    def _with_generator(self, n, items, st, v, fi):
        """with statement over a contextmanager generator of the package."""
        fr = Frame(fi, len(self.frames))
        fr.clo = None
        fr.callnode = getattr(n, "lineno", 0) * 1000 + getattr(n, "col_offset", 0)
        fr.cm = (n, items)
        s = st.copy()
        caller = dict(st.env)
        caller["%fid"] = self.frame.id
        s.saved = s.saved + (caller,)
        s.env = self.bind(fi.node, v[2], v[3], st)
        self.frames.append(fr)
        try:
            outs = self.exec_body(fi.node.body, [s])
        finally:
            self.frames.pop()
        outs += [(x, ("raise", e)) for x, e in fr.raises]
        for s2, o in outs:
            pend = s2.env.get("%pending")
            s3 = self._restore(s2, None)
            if o is not None and o[0] == "raise":
                yield s3, o
            else:
                yield s3, pend

    def _resume_with(self, n, val, st):
        """The yield of such a generator: runs the body of the with."""
        fr = self.frame
        wn, items = fr.cm
        gen_env = st.env
        s = st.copy()
        s.env = dict(s.saved[-1])
        s.saved = s.saved[:-1]
        self.frames.pop()
        saved_tries = self.tries
        try:
            sts = [s]
            if items[0].optional_vars is not None:
                sts = self.assign(items[0].optional_vars, val, s, wn)
            outs = [r for x in sts for r in self._with(wn, items[1:], x)]
        finally:
            self.frames.append(fr)
        for s2, o in outs:
            s3 = s2.copy()
            s3.saved = s3.saved + (s3.env,)
            s3.env = dict(gen_env)
            if o is not None and o[0] == "raise":
                fr.raises.append((s3, o[1]))
                continue
            if o is not None:
                s3.env["%pending"] = o
            yield s3, NONE

    def s_FunctionDef(self, n, st):
        key = ("closure", n.name, self.site(n))
        self.closures[key] = (n, dict(st.env), self.frame.id, self.frame.func)
        st.env[n.name] = key
        for k in list(self.closures):
            pass
        yield st, None

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, n, st):
        site = self.site(n)
        bases = []
        for b in n.bases:
            for s, v in self.ev(b, st):
                bases.append(v)
                st = s
                break
        t = ("obj", "class", site, tuple(bases))
        st.env[n.name] = t
        self.emit(st, "classdef", n, target=t, args=tuple(bases))
        yield st, None

    def s_Import(self, n, st):
        for a in n.names:
            nm = a.asname or a.name.split(".")[0]
            st.env[nm] = ("ext", a.name if a.asname else nm)
        yield st, None

    def s_ImportFrom(self, n, st):
        m = self.frame.func.module
        base = self.p._rel_target(m, n)
        for a in n.names:
            d = base + ("" if base == "pkg:" else ".") + a.name
            st.env[a.asname or a.name] = self.dotted_term(d)
        yield st, None

    def s_Global(self, n, st):
        g = set(st.env.get("%globals", ()))
        g.update(n.names)
        st.env["%globals"] = tuple(sorted(g))
        yield st, None

    def s_Nonlocal(self, n, st):
        g = set(st.env.get("%nonlocal", ()))
        g.update(n.names)
        st.env["%nonlocal"] = tuple(sorted(g))
        yield st, None

    def set_nonlocal(self, name, v, st):
        saved = list(st.saved)
        for i in range(len(saved) - 1, -1, -1):
            if name in saved[i]:
                e = dict(saved[i])
                e[name] = v
                saved[i] = e
                break
        st.saved = tuple(saved)

    def s_Match(self, n, st):
        for s, subj in self.ev(n.subject, st):
            cur = [s]
            for case in n.cases:
                nxt = []
                for c in cur:
                    for s2, hit in self.match_pat(case.pattern, subj, c):
                        if hit and case.guard is not None:
                            for s3, w in self.cond(case.guard, s2):
                                if w:
                                    yield from self.exec_body(case.body, [s3])
                                else:
                                    nxt.append(s3)
                        elif hit:
                            yield from self.exec_body(case.body, [s2])
                        else:
                            nxt.append(s2)
                cur = nxt
            for c in cur:
                yield c, None

    def match_pat(self, p, subj, st):
        if isinstance(p, ast.MatchValue):
            for s, v in self.ev(p.value, st):
                t = self.mk_eq(subj, v)
                for want in (True, False):
                    for s2 in self.assume(s.copy(), t, want):
                        yield s2, want
        elif isinstance(p, ast.MatchSingleton):
            t = ("is", subj, C(p.value))
            for want in (True, False):
                for s2 in self.assume(st.copy(), t, want):
                    yield s2, want
        elif isinstance(p, ast.MatchOr):
            cur = [st]
            for q in p.patterns:
                nxt = []
                for c in cur:
                    for s, hit in self.match_pat(q, subj, c):
                        if hit:
                            yield s, True
                        else:
                            nxt.append(s)
                cur = nxt
            for c in cur:
                yield c, False
        elif isinstance(p, ast.MatchAs):
            if p.pattern is None:
                s = st.copy()
                if p.name:
                    s.env[p.name] = subj
                yield s, True
            else:
                for s, hit in self.match_pat(p.pattern, subj, st):
                    if hit and p.name:
                        s.env[p.name] = subj
                    yield s, hit
        else:
            t = ("unk", self.site(p))
            for want in (True, False):
                for s2 in self.assume(st.copy(), t, want):
                    yield s2, want

    # loops

    def assigned_names(self, nodes):
        out = set()
        for node in nodes:
            for x in ast.walk(node):
                if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    out.add(x.id)
                elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                    out.add(x.name)
                elif isinstance(x, ast.ExceptHandler) and x.name:
                    out.add(x.name)
                elif isinstance(x, (ast.Import, ast.ImportFrom)):
                    for a in x.names:
                        out.add((a.asname or a.name).split(".")[0])
        return out

    def generalise(self, st, names, node):
        """Replace everything the loop body may change by phi terms."""
        site = self.site(node)
        s = st.copy()
        for nm in sorted(names):
            if nm in s.env:
                init = s.env[nm]
                phi = ("phi", site, nm)
                self.phi.setdefault((site, nm), set()).add(init)
                self.phi_init.setdefault((site, nm), init)
                s.env[nm] = phi
        return s

    def heap_effects(self, st, runner):
        """Heap keys changed by one (muted) run of the loop body."""
        self.muted += 1
        mark = len(self.frame.raises)
        saved = list(self.loops)
        try:
            outs = list(runner(st.copy()))
        finally:
            self.muted -= 1
            self.loops = saved
        for s, exc in self.frame.raises[mark:]:
            outs.append((s, ("raise", exc)))
        del self.frame.raises[mark:]
        changed = set()
        for s, o in outs:
            for k, v in s.heap.items():
                if st.heap.get(k) != v:
                    changed.add(k)
            for k in st.heap:
                if k not in s.heap:
                    changed.add(k)
        return changed, outs

    def havoc_heap(self, st, changed, node):
        s = st.copy()
        site = self.site(node)
        for base, key in changed:
            if (base, key) in s.heap or key.startswith("."):
                if key.startswith("."):
                    phi = ("phi", site, show(base) + key)
                    old = s.heap.get((base, key))
                    if old is not None:
                        self.phi.setdefault((site, show(base) + key), set()).add(old)
                        s.heap[(base, key)] = phi
                    else:
                        s.heap[(base, key)] = phi
                        self.phi.setdefault((site, show(base) + key), set()).add(
                            ("attr", base, key[1:])
                        )
                else:
                    s.heap.pop((base, key), None)
            if key == "#ver":
                s.heap[(base, "#ver")] = ("L",) + site[:2]
                s.heap.pop((base, "#items"), None)
                for k in [k for k in s.heap if k[0] == base and k[1].startswith("[")]:
                    s.heap.pop(k)
        bases = {b for b, k in changed}
        if bases:
            conds = {a: v for a, v in s.conds.items()
                     if not any(live(a, b) for b in bases)}
            s.conds = conds
        return s

    def run_loop(self, n, st, body_runner, label, iterterm=None):
        """Common part of for and while.

        body_runner(state) -> outcomes of one generic iteration.
        Returns the exit states [(state, outcome)].
        """
        names = self.assigned_names(n.body)
        if isinstance(n, (ast.For, ast.AsyncFor)):
            names |= self.assigned_names([n.target])
        else:
            names |= self.assigned_names([n.test])
        changed, _ = self.heap_effects(self.generalise(st, names, n), body_runner)
        g = self.havoc_heap(self.generalise(st, names, n), changed, n)
        site = self.site(n)
        self.loops.append((site, n, iterterm))
        try:
            outs = list(body_runner(g.copy()))
        finally:
            self.loops.pop()
        exits = []
        survive = []
        for s, o in outs:
            if o is None or o == ("continue",):
                survive.append(s)
                for nm in names:
                    if nm in s.env and (site, nm) in self.phi:
                        self.phi[(site, nm)].add(s.env[nm])
                    elif nm in s.env:
                        self.phi.setdefault((site, nm), set()).add(s.env[nm])
                if not self.muted:
                    self.iterends.append(Event(
                        "iterend", node=n, func=self.frame.func, conds=s.conds,
                        held=s.held, loops=tuple(self.loops) + ((site, n, iterterm),),
                        tries=tuple(self.tries), trace=s.trace, state=dict(s.heap),
                        args=(g.trace, dict(g.conds)), value=dict(s.env)))
                for (b, k), v in s.heap.items():
                    if k.startswith("."):
                        kk = (site, show(b) + k)
                        if kk in self.phi:
                            self.phi[kk].add(v)
            else:
                exits.append((s, "break" if o == ("break",) else o))
                if not self.muted:
                    self.iterexits.append(Event(
                        "iterexit", node=n, func=self.frame.func, conds=s.conds,
                        held=s.held, loops=tuple(self.loops) + ((site, n, iterterm),),
                        tries=tuple(self.tries), trace=s.trace, state=dict(s.heap),
                        args=(g.trace, o), value=dict(s.env)))
        return g, survive, exits, names, site

    def iterates_nothing(self, n, it, st):
        """`for x in given or {}`: the empty literal written there was chosen."""
        t = self.strip(it)
        while t[0] == "call" and (
                t[1][0] == "method" and t[1][2] in ("items", "keys", "values") and not t[2]
                or t[1] in (("builtin", "list"), ("builtin", "tuple"), ("builtin", "iter"),
                            ("builtin", "sorted"), ("builtin", "enumerate"))):
            t = self.strip(t[1][1] if t[1][0] == "method" else t[2][0])
        if t[0] == "tuple" and not t[1] or t == ("const", "tuple", ()) or t == ("const", "str", ""):
            return True
        if t[0] != "obj" or st.heap.get((t, "#items")) != () or st.heap.get((t, "#open")):
            return False
        return any(isinstance(x, (ast.Dict, ast.List)) and self.site(x) == t[2] for x in ast.walk(n.iter))

    def s_For(self, n, st):
        for s, it in self.ev(n.iter, st):
            if self.iterates_nothing(n, it, s):
                yield from self.exec_body(n.orelse, [s]) if n.orelse else [(s, None)]
                continue
            # a loop over a literal collection of constants is unrolled
            lit = self.literal_items(it, s) if self.unroll else None
            if lit is not None and self.unroll == "all" and len(lit) <= 12:
                yield from self.unrolled_for(n, s, lit)
                continue
            if lit is not None and 0 < len(lit) <= 8 and (len(lit) <= 3 or all(
                x[0] in ("const", "tuple", "func", "cls") for x in lit
            )):
                yield from self.unrolled_for(n, s, lit)
                continue
            yield from self.generic_for(n, s, it)

    s_AsyncFor = s_For

    def unrolled_for(self, n, st, items):
        cur = [st]
        for x in items:
            nxt = []
            for s in cur:
                for s1 in self.assign(n.target, x, s.copy(), n):
                    for s2, o in self.exec_body(n.body, [s1]):
                        if o is None or o == ("continue",):
                            nxt.append(s2)
                        elif o == ("break",):
                            yield s2, None
                        else:
                            yield s2, o
            cur = self.dedupe(nxt)
        for s in cur:
            yield from self.exec_body(n.orelse, [s])

    def generic_for(self, n, st, it):
        base_conds = None

        def body(s):
            x = self.elem_of(it, n, s)
            for s1 in self.assign(n.target, x, s, n, loop=True):
                yield from self.exec_body(n.body, [s1])

        g, survive, exits, names, site = self.run_loop(n, st, body, "for", it)
        # normal exit: zero or more iterations, all of which survived
        after = g.copy()
        if exits and survive:
            dnf = frozenset(
                frozenset((a, v) for a, v in s.conds.items() if g.conds.get(a) != v)
                for s in survive
            )
            if frozenset() not in dnf:
                after.conds = dict(after.conds)
                after.conds[("forall", it, site, dnf)] = True
        elif exits and not survive:
            # the loop body always leaves: normal exit only if empty
            after.conds = dict(after.conds)
            after.conds[("forall", it, site, frozenset())] = True
        self.after_loop_env(after, st, names, site, survive)
        outs = []
        outs.extend(self.exec_body(n.orelse, [after]) if n.orelse else [(after, None)])
        for s, o in exits:
            outs.append((s, None) if o == "break" else (s, o))
        yield from outs

    def after_loop_env(self, after, st, names, site, survive):
        for nm in names:
            if nm not in after.env and survive:
                after.env[nm] = ("phi", site, nm)

    def s_While(self, n, st):
        def body(s):
            for s1, w in self.cond(n.test, s):
                if w:
                    yield from self.exec_body(n.body, [s1])

        g, survive, exits, names, site = self.run_loop(n, st, body, "while")
        outs = []
        # exit through the condition
        for s1, w in self.cond(n.test, g.copy()):
            if not w:
                self.after_loop_env(s1, st, names, site, survive)
                outs.extend(self.exec_body(n.orelse, [s1]) if n.orelse else [(s1, None)])
        for s, o in exits:
            outs.append((s, None) if o == "break" else (s, o))
        yield from outs

    def elem_of(self, it, node, st):
        site = self.site(node)[:3]
        if it[0] == "call":
            f, a = it[1], it[2]
            if f == ("builtin", "enumerate") and a:
                idx = ("idx", a[0], site)
                start = a[1] if len(a) > 1 else dict(it[3]).get("start")
                if start is not None and start != C(0):
                    idx = ("bin", "Add", idx, start)
                return ("tuple", (idx, self.elem_of(a[0], node, st)))
            if f == ("builtin", "zip"):
                return ("tuple", tuple(self.elem_of(x, node, st) for x in a))
            if f == ("builtin", "range") and len(a) == 1 and self._len_of(a[0]):
                return ("idx", self._len_of(a[0]), site)
            if f[0] == "method" and f[2] == "items" and not a:
                k = ("key", f[1], site)
                return ("tuple", (k, ("item", f[1], k)))
            if f[0] == "method" and f[2] == "values" and not a:
                return ("item", f[1], ("key", f[1], site))
            if f[0] == "method" and f[2] == "keys" and not a:
                return ("key", f[1], site)
            if f[0] == "builtin" and f[1] in ("list", "tuple", "iter") and len(a) == 1:
                return self.elem_of(a[0], node, st)
        return ("elem", it, site)

    # -- assignment --------------------------------------------------------------

    def strip(self, t):
        while t[0] == "ver":
            t = t[1]
        return t

    def touch(self, st, base):
        """The content of `base` changed."""
        n = st.heap.get((base, "#ver"), 0)
        if base[:2] == ("obj", "list"):
            # what was read before the change remains what it was
            for k, v in list(st.env.items()):
                if isinstance(v, tuple) and v and v != base and (
                        v[0] in ("item", "not", "slice")) and mentions(v, base):
                    st.env[k] = frozen(v, base, n)
        st.heap[(base, "#ver")] = (n, 1) if not isinstance(n, int) else n + 1
        if not isinstance(n, int):
            st.heap[(base, "#ver")] = ("+", n)
        for k in [k for k in st.heap if k[0] == base and (
                k[1].startswith("[") or k[1] == "#items")]:
            del st.heap[k]
        conds = {a: v for a, v in st.conds.items() if not live(a, base)}
        if len(conds) != len(st.conds):
            st.conds = conds

    def assign(self, target, v, st, node, aug=False, loop=False):
        if isinstance(target, ast.Name):
            g = st.env.get("%globals", ())
            if target.id in g:
                self.emit(st, "setglobal", node, target=("global", self.frame.func.module.name, target.id), value=v)
                st.heap[(("module", self.frame.func.module.name), "." + target.id)] = v
                return [st]
            if target.id in st.env.get("%nonlocal", ()):
                self.set_nonlocal(target.id, v, st)
                return [st]
            st.env[target.id] = v
            return [st]
        if isinstance(target, (ast.Tuple, ast.List)):
            vals = self.unpack(v, target.elts, st)
            sts = [st]
            for t, x in zip(target.elts, vals):
                sts = [y for s in sts for y in self.assign(t, x, s, node, loop=loop)]
            return sts
        if isinstance(target, ast.Starred):
            return self.assign(target.value, v, st, node)
        if isinstance(target, ast.Attribute):
            out = []
            for s, b in self.ev(target.value, st):
                base = self.strip(b)
                if target.attr == "_fields_":
                    # laying out a ctypes structure fails on invalid members
                    self.maybe_raise(s, node, ("setattr", "_fields_"))
                self.emit(s, "setattr", node, target=base, args=(target.attr,), value=v,
                          how="augassign" if aug else "setattr")
                s.heap[(base, "." + target.attr)] = v
                old = ("attr", base, target.attr)
                conds = {a: w for a, w in s.conds.items() if not mentions(a, old)}
                if len(conds) != len(s.conds):
                    s.conds = conds
                out.append(s)
            return out
        if isinstance(target, ast.Subscript):
            out = []
            for s, b in self.ev(target.value, st):
                for s2, k in self.ev_slice(target.slice, s):
                    base = self.strip(b)
                    items = s2.heap.get((base, "#items"))
                    opened = s2.heap.get((base, "#open"))
                    self.emit(s2, "mutate", node, target=base, how="setitem",
                              args=(k, v))
                    kept = self.other_items(s2, base, k)
                    self.touch(s2, base)
                    s2.heap.update(kept)
                    if is_const(k):
                        s2.heap[(base, "[%r]" % (k[2],))] = v
                    out.append(s2)
            return out
        return [st]

    @staticmethod
    def other_items(st, base, k):
        """Items set before under other constant keys."""
        if not is_const(k) or isinstance(k[2], int) and k[2] < 0:
            return {}
        key = "[%r]" % (k[2],)
        items = st.heap.get((base, "#items"))
        kept = {}
        if items is not None and base[0] == "obj" and base[1] == "list" and isinstance(k[2], int) \
                and not st.heap.get((base, "#open")):
            # the items of the literal
            kept = {(base, "[%d]" % i): v for i, v in enumerate(items)
                    if i != k[2] and isinstance(v, tuple) and v and v[0] != "star"}
        return kept | {h: v for h, v in st.heap.items() if h[0] == base and h[1].startswith("[")
                and h[1] != key and not h[1].startswith("[-")}

    def unpack(self, v, elts, st):
        n = len(elts)
        items = None
        if v[0] == "tuple":
            items = list(v[1])
        elif v[0] == "obj":
            it = st.heap.get((v, "#items"))
            if it is not None and not st.heap.get((v, "#open")):
                items = list(it)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if items is not None and not star and len(items) == n:
            return items
        out = []
        for i, e in enumerate(elts):
            if star and i >= star[0]:
                if i == star[0]:
                    out.append(("slice", v, C(i), C(i - n + 1) if i - n + 1 else NONE, NONE))
                else:
                    out.append(("item", v, C(i - n)))
            else:
                out.append(self.mk_item(v, C(i), st))
        return out

    # -- conditions on expressions --------------------------------------------------

    def cond(self, node, st):
        """[(state, bool)] for a test expression."""
        if isinstance(node, ast.BoolOp):
            is_and = isinstance(node.op, ast.And)
            cur = [st]
            out = []
            for i, v in enumerate(node.values):
                nxt = []
                for s in cur:
                    for s2, w in self.cond(v, s):
                        if w == is_and:
                            nxt.append(s2)
                        else:
                            out.append((s2, not is_and))
                cur = nxt
            out.extend((s, is_and) for s in cur)
            return out
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            return [(s, not w) for s, w in self.cond(node.operand, st)]
        out = []
        for s, v in self.ev(node, st):
            for want in (True, False):
                for s2 in self.assume(s.copy(), v, want):
                    out.append((s2, want))
        return out

    # -- expressions ------------------------------------------------------------------

    def ev(self, node, st):
        """Evaluate: returns a list of (state, term)."""
        meth = getattr(self, "e_" + type(node).__name__, None)
        if meth is None:
            return [(st, ("unk", self.site(node)))]
        return list(meth(node, st))

    def ev_many(self, nodes, st):
        out = [(st, ())]
        for n in nodes:
            nxt = []
            for s, vals in out:
                for s2, v in self.ev(n, s):
                    nxt.append((s2, vals + (v,)))
            out = nxt
        return out

    def e_Constant(self, n, st):
        try:
            hash(n.value)
            yield st, C(n.value)
        except TypeError:
            yield st, ("unk", self.site(n))

    def e_Name(self, n, st):
        yield st, self.lookup(n.id, st, n)

    def lookup(self, name, st, node=None):
        if name in st.env.get("%globals", ()):
            return self.global_term(name, st)
        if name in st.env:
            return st.env[name]
        clo = st.env.get("%closure")
        if clo is not None:
            env = self.closures[clo][1]
            chain = clo
            while chain is not None:
                _, env, fid, fn = self.closures[chain]
                live = None
                for e in st.saved:
                    if e.get("%fid") == fid:
                        live = e
                if live is not None and name in live:
                    return live[name]
                if name in env:
                    return env[name]
                chain = env.get("%closure")
        return self.global_term(name, st)

    def global_term(self, name, st):
        m = self.frame.func.module
        k = (("module", m.name), "." + name)
        if k in st.heap:
            return st.heap[k]
        # functions defined next to a nested one which is analysed on its own
        f = self.frame.func
        while getattr(f, "parent", None) is not None:
            f = f.parent
            sib = self.p.functions.get(f.qual + "." + name)
            if sib is not None:
                return ("func", sib.qual)
        return self.module_name(m, name)

    def module_name(self, m, name):
        if name in m.classes:
            return ("cls", m.classes[name].qual)
        if name in m.functions:
            return ("func", m.functions[name].qual)
        if name in m.globals:
            vals = m.globals[name]
            if len(vals) == 1 and not self.global_rebound(m, name):
                v = vals[0]
                if isinstance(v, ast.Constant):
                    try:
                        hash(v.value)
                        return C(v.value)
                    except TypeError:
                        pass
                if isinstance(v, ast.Tuple) and all(
                    isinstance(e, ast.Constant) for e in v.elts
                ):
                    return ("tuple", tuple(C(e.value) for e in v.elts))
                if isinstance(v, ast.Name) and (v.id in m.functions or v.id in m.classes):
                    return self.module_name(m, v.id)
            return ("global", m.name, name)
        if name in m.imports:
            return self.dotted_term(m.imports[name])
        if name in BUILTINS:
            return ("builtin", name)
        return ("global", m.name, name)

    def global_rebound(self, m, name):
        names = getattr(m, "_rebound", None)
        if names is None:
            names = m._rebound = {
                n for x in ast.walk(m.tree) if isinstance(x, ast.Global) for n in x.names}
        return name in names or name in self.p.mutated_names()

    def dotted_term(self, dotted):
        r = self.p.lookup_dotted(dotted)
        if isinstance(r, FuncInfo):
            return ("func", r.qual)
        if isinstance(r, ClassInfo):
            return ("cls", r.qual)
        if isinstance(r, Module):
            return ("mod", r.name)
        if dotted.startswith("pkg:"):
            name = dotted[4:]
            mod, _, attr = name.rpartition(".")
            if mod in self.p.modules:
                m = self.p.modules[mod]
                if attr in m.globals:
                    return self.module_name(m, attr)
                if attr in m.imports:
                    return self.dotted_term(m.imports[attr])
                return ("global", mod, attr)
        if dotted.startswith("builtins."):
            return ("builtin", dotted[9:])
        return ("ext", dotted)

    def e_Attribute(self, n, st):
        for s, b in self.ev(n.value, st):
            yield from self.getattr(b, n.attr, s, n)

    def getattr(self, b, attr, s, n):
        base = self.strip(b)
        if base[0] == "ext":
            return [(s, ("ext", base[1] + "." + attr))]
        if base[0] == "mod":
            return [(s, self.module_name(self.p.modules[base[1]], attr))]
        k = (base, "." + attr)
        if k in s.heap:
            return [(s, s.heap[k])]
        if base[0] == "cls":
            c = self.p.classes.get(base[1])
            f = c.find(attr) if c else None
            if f is not None:
                if f.is_classmethod:
                    return [(s, ("bound", f.qual, base))]
                return [(s, ("func", f.qual))]
            if c is not None and c.find_attr(attr):
                owner, _ = c.find_attr(attr)
                return [(s, ("attr", ("cls", owner.qual), attr))]
            return [(s, ("attr", base, attr))]
        c = self.typeof(base)
        if base[0] == "super":
            for cc in base[2]:
                c2 = self.p.classes.get(cc)
                if c2 and c2.find(attr):
                    return [(s, ("bound", c2.find(attr).qual, base[1]))]
            return [(s, ("method", base[1], "super." + attr))]
        if c is not None:
            f = c.find(attr)
            if f is not None:
                # abstract methods are dispatched to the overriding class
                f = self.override(c, attr, f)
                if f.is_property:
                    if self.can_inline(f):
                        return self.inline(f, (base,), (), s, n, bound=base)
                    return [(s, ("attr", base, attr))]
                if f.is_static:
                    return [(s, ("func", f.qual))]
                return [(s, ("bound", f.qual, base))]
        elif base[0] in ("item", "elem", "val"):
            k = self.item_property(attr)
            if k is not None:
                return [(s, self.mk_item(base, k, s))]
        return [(s, ("attr", base, attr))]

    def item_property(self, attr):
        """Key K when `attr` only is a property of the package giving self[K]."""
        if not hasattr(self.p, "item_properties"):
            got = {}
            for c in self.p.classes.values():
                for name, f in c.methods.items():
                    k = None
                    body = [x for x in f.node.body if not (
                        isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
                    if f.is_property and len(body) == 1 and isinstance(body[0], ast.Return) and isinstance(
                            body[0].value, ast.Subscript) and isinstance(body[0].value.value, ast.Name) \
                            and body[0].value.value.id == f.params[0] \
                            and isinstance(body[0].value.slice, ast.Constant):
                        k = body[0].value.slice.value
                    got.setdefault(name, set()).add(k)
            self.p.item_properties = {n: v for n, v in got.items()}
        ks = self.p.item_properties.get(attr, ())
        if len(ks) == 1 and None not in ks:
            return C(next(iter(ks)))
        return None

    def override(self, c, attr, f):
        """Concrete implementation used at run time for an abstract method."""
        subs = [x for x in c.subclasses if attr in x.methods]
        if len(subs) == 1 and self.is_abstract(f):
            return subs[0].methods[attr]
        return f

    @staticmethod
    def is_abstract(f):
        body = [x for x in f.node.body if not (
            isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
        if not body or all(isinstance(x, ast.Pass) for x in body):
            return True
        return len(body) == 1 and isinstance(body[0], ast.Raise) and (
            "NotImplementedError" in ast.dump(body[0]))

    def e_Subscript(self, n, st):
        for s, b in self.ev(n.value, st):
            if isinstance(n.slice, ast.Slice):
                parts = [x if x is not None else ast.Constant(None) for x in (
                    n.slice.lower, n.slice.upper, n.slice.step)]
                for s2, v in self.ev_many(parts, s):
                    yield s2, self.mk_slice(b, v, s2)
                continue
            for s2, k in self.ev_slice(n.slice, s):
                # literal dictionary indexed by an unknown key: one path per key
                d = self.literal_dict(b, s2)
                if d is not None and not is_const(k):
                    rest = s2
                    for kk, vv in d:
                        for s3 in self.assume(s2.copy(), self.mk_eq(k, kk), True):
                            yield s3, vv
                    self.maybe_raise(s2, n)
                    continue
                v = self.mk_item(b, k, s2)
                self.maybe_raise(s2, n, what=v)
                yield s2, v

    def ev_slice(self, node, st):
        if isinstance(node, ast.Slice):
            parts = [x if x is not None else ast.Constant(None) for x in (
                node.lower, node.upper, node.step)]
            return [(s, ("sl",) + v) for s, v in self.ev_many(parts, st)]
        return self.ev(node, st)

    def mk_slice(self, b, v, st):
        base = self.strip(b)
        items = None
        if base[0] == "tuple":
            items = base[1]
        elif self.unroll == "all" and all(is_const(x) for x in v) and base[0] in ("obj", "call", "list"):
            items = self.literal_items(b, st)
        if items is not None and all(is_const(x) for x in v):
            return ("tuple", tuple(items[slice(*[x[2] for x in v])]))
        if v == (NONE, NONE, NONE):
            return ("call", ("method", b, "copy"), (), ())
        return ("slice", b) + v

    def mk_item(self, b, k, st):
        base = self.strip(b)
        if is_const(k):
            h = st.heap.get((base, "[%r]" % (k[2],)))
            if h is not None:
                return h
            if base[0] == "tuple" and isinstance(k[2], int) and -len(base[1]) <= k[2] < len(base[1]):
                return base[1][k[2]]
            if base[0] == "list" and isinstance(k[2], int) and isinstance(base[1], tuple):
                known = base[1][:k[2] + 1] if k[2] >= 0 else base[1][k[2]:]
                if len(known) == (k[2] + 1 if k[2] >= 0 else -k[2]) and not any(x[0] == "star" for x in known):
                    return base[1][k[2]]
            if base[0] == "obj":
                items = st.heap.get((base, "#items"))
                if items is not None and not st.heap.get((base, "#open")) and isinstance(
                    k[2], int) and base[1] == "list" and -len(items) <= k[2] < len(items):
                    return items[k[2]]
                if items is not None and base[1] == "list" and isinstance(k[2], int) and any(
                        x[0] == "star" for x in items):
                    # [a, b, *rest]: those before (or after) the others
                    known = items[:k[2] + 1] if k[2] >= 0 else items[k[2]:]
                    if (len(known) == k[2] + 1 or len(known) == -k[2]) and not any(x[0] == "star" for x in known):
                        return items[k[2]]
                if items is not None and base[1] == "dict":
                    for kk, vv in items:
                        if kk == k:
                            return vv
            d = self.literal_dict(b, st)
            if d is not None:
                for kk, vv in d:
                    if kk == k:
                        return vv
        # x[i] with i ranging over the indices of x
        if k[0] == "idx" and k[1] == b:
            return ("elem", b, k[2])
        # an item of a copy is an item of the original
        if b[0] == "call":
            f = b[1]
            if f[0] == "method" and f[2] == "copy" and not b[2]:
                return self.mk_item(f[1], k, st)
            if f[0] == "builtin" and f[1] in ("list", "tuple", "dict") and len(b[2]) == 1 and not b[3]:
                return self.mk_item(b[2][0], k, st)
        if b[0] == "slice" and is_const(k) and b[3] == NONE and b[4] == NONE and is_const(b[2]):
            if isinstance(b[2][2], int) and isinstance(k[2], int) and b[2][2] >= 0 and k[2] >= 0:
                return self.mk_item(b[1], C(b[2][2] + k[2]), st)
        return ("item", b, k)

    # literals

    def literal_items(self, t, st):
        """Items of a literal list/tuple/set, or None."""
        b = self.strip(t)
        if self.unroll == "all" and b[0] != "tuple":
            items = st.heap.get((b, "#items"))
            if items is not None:
                return None if st.heap.get((b, "#open")) else list(items)
            if (b, "#ver") in st.heap:
                return None
        if b[0] == "tuple":
            return list(b[1])
        if b[0] == "obj" and b[1] in ("list", "set"):
            items = st.heap.get((b, "#items"))
            if items is not None and not st.heap.get((b, "#open")):
                return list(items)
        if b[0] == "global":
            m = self.p.modules.get(b[1])
            vals = m.globals.get(b[2]) if m else None
            if vals and len(vals) == 1 and not self.global_rebound(m, b[2]):
                return self.literal_node_items(vals[0])
        if b[0] == "attr" and b[1][0] in ("param", "cls"):
            c = self.typeof(b[1]) if b[1][0] == "param" else self.p.classes.get(b[1][1])
            if c is not None and c.find_attr(b[2]):
                return self.literal_node_items(c.find_attr(b[2])[1])
        if b[0] == "call" and b[1][0] == "builtin" and b[1][1] in (
                "list", "tuple", "set", "frozenset", "sorted") and len(b[2]) == 1:
            got = self.literal_items(b[2][0], st)
            if b[1][1] in ("list", "tuple") or got is None or all(is_const(x) for x in got):
                return got
            return None  # unknown order
        if self.unroll == "all":
            return self.all_items(b, st)
        return None

    def all_items(self, b, st):
        """Items of sequences derived from literal ones (unroll="all")."""
        if b[0] == "bin" and b[1] == "Add":
            x, y = self.literal_items(b[2], st), self.literal_items(b[3], st)
            return None if x is None or y is None else x + y
        if b[0] == "call" and b[1][0] == "builtin" and len(b[2]) == 1:
            x = self.literal_items(b[2][0], st)
            if x is not None and b[1][1] == "enumerate" and not b[3]:
                return [("tuple", (C(i), v)) for i, v in enumerate(x)]
            if x is not None and b[1][1] == "reversed":
                return x[::-1]
            if x is not None and b[1][1] == "iter":
                return x
        if b[0] == "call" and b[1][0] == "method" and b[1][2] == "copy" and not b[2]:
            return self.literal_items(b[1][1], st)
        if b[0] == "call" and b[1] == ("ext", "itertools.product"):
            xs = [self.literal_items(a, st) for a in b[2]]
            if all(x is not None for x in xs):
                rows = [()]
                for x in xs:
                    rows = [r + (y,) for r in rows for y in x]
                return [("tuple", r) for r in rows]
        if b[0] == "call" and b[1] == ("ext", "itertools.chain"):
            xs = [self.literal_items(a, st) for a in b[2]]
            if all(x is not None for x in xs):
                return [y for x in xs for y in x]
        if b[0] == "slice" and b[2] == NONE and b[3] == NONE:
            x = self.literal_items(b[1], st)
            if x is not None and is_const(b[4]) and b[4][2] in (-1, 1, None):
                return x[::b[4][2]]
        return None

    def comp_rows(self, n, gens, st, elts, kind, depth=0):
        """[(state, items)] of a comprehension over literal sequences (unroll="all")."""
        g = gens[0]
        res = []
        for s, it in self.ev(g.iter, st):
            lit = self.literal_items(it, s)
            if lit is None or len(lit) > 12:
                return None
            cur = [(s, ())]
            for x in lit:
                nxt = []
                for s0, got in cur:
                    for s1 in self.assign(g.target, x, s0.copy(), n):
                        ok, drop = [s1], []
                        for c in g.ifs:
                            keep = []
                            for s2 in ok:
                                for s3, w in self.cond(c, s2):
                                    (keep if w else drop).append(s3)
                            ok = keep
                        for s2 in drop:
                            nxt.append((s2, got))
                        for s2 in ok:
                            if len(gens) > 1:
                                sub = self.comp_rows(n, gens[1:], s2, elts, kind, depth + 1)
                                if sub is None:
                                    return None
                                nxt.extend((s3, got + v) for s3, v in sub)
                            else:
                                for s3, v in self.ev_many(elts, s2):
                                    nxt.append((s3, got + (v[0] if len(v) == 1 else ("tuple", tuple(v)),)))
                cur = nxt
            res.extend(cur)
        return res

    def literal_node_items(self, v):
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in (
                "frozenset", "set", "tuple", "list") and len(v.args) == 1:
            v = v.args[0]
        if isinstance(v, (ast.List, ast.Tuple, ast.Set)):
            out = []
            for e in v.elts:
                if not isinstance(e, ast.Constant):
                    return None
                out.append(C(e.value))
            return out
        if isinstance(v, ast.Dict):
            out = []
            for e in v.keys:
                if not isinstance(e, ast.Constant):
                    return None
                out.append(C(e.value))
            return out
        return None

    def literal_dict(self, t, st):
        b = self.strip(t)
        if b[0] == "obj" and b[1] == "dict":
            items = st.heap.get((b, "#items"))
            if items is not None and not st.heap.get((b, "#open")) and items and all(
                    is_const(k) for k, _ in items) and all(
                    v[0] in ("bound", "func", "closure", "const", "tuple", "lambda", "cls", "ext", "builtin")
                    for _, v in items):
                return list(items)
        if b[0] == "global":
            m = self.p.modules.get(b[1])
            vals = m.globals.get(b[2]) if m else None
            if vals and len(vals) == 1 and isinstance(vals[0], ast.Dict):
                out = []
                for k, v in zip(vals[0].keys, vals[0].values):
                    if not isinstance(k, ast.Constant):
                        return None
                    if isinstance(v, ast.Constant):
                        out.append((C(k.value), C(v.value)))
                    elif isinstance(v, ast.Name):
                        x = self.module_name(m, v.id)
                        if x[0] not in ("func", "cls"):
                            return None
                        out.append((C(k.value), x))
                    else:
                        return None
                return out
        return None

    # displays

    def e_Tuple(self, n, st):
        yield from self._seq(n, st, "tuple")

    def e_List(self, n, st):
        yield from self._seq(n, st, "list")

    def e_Set(self, n, st):
        yield from self._seq(n, st, "set")

    def _seq(self, n, st, kind):
        cur = [(st, (), False)]
        for e in n.elts:
            nxt = []
            for s, vals, opened in cur:
                if isinstance(e, ast.Starred):
                    for s2, v in self.ev(e.value, s):
                        lit = self.literal_items(v, s2)
                        if lit is not None:
                            nxt.append((s2, vals + tuple(lit), opened))
                        else:
                            nxt.append((s2, vals + (("star", v),), True))
                else:
                    for s2, v in self.ev(e, s):
                        nxt.append((s2, vals + (v,), opened))
            cur = nxt
        for s, vals, opened in cur:
            if kind == "tuple" and not opened:
                yield s, ("tuple", vals)
            elif kind == "tuple":
                yield s, ("call", ("builtin", "tuple"), (("list", vals),), ())
            else:
                o = ("obj", kind, self.site(n))
                for k in [k for k in s.heap if k[0] == o]:
                    del s.heap[k]
                s = s.copy()
                self.contents.setdefault(o, set()).update(
                    ("flat", x[1]) if x[0] == "star" else ("one", x) for x in vals)
                s.heap[(o, "#items")] = vals
                if opened:
                    s.heap[(o, "#open")] = True
                yield s, o

    def e_Dict(self, n, st):
        cur = [(st, (), False)]
        for k, v in zip(n.keys, n.values):
            nxt = []
            for s, items, opened in cur:
                if k is None:
                    for s2, x in self.ev(v, s):
                        nxt.append((s2, items + ((("star",), x),), True))
                    continue
                for s2, kk in self.ev(k, s):
                    for s3, vv in self.ev(v, s2):
                        nxt.append((s3, items + ((kk, vv),), opened))
            cur = nxt
        for s, items, opened in cur:
            o = ("obj", "dict", self.site(n))
            s = s.copy()
            for k in [k for k in s.heap if k[0] == o]:
                del s.heap[k]
            self.contents.setdefault(o, set()).update(
                ("flat", v) if k == ("star",) else ("one", v) for k, v in items)
            s.heap[(o, "#items")] = items
            if opened:
                s.heap[(o, "#open")] = True
            yield s, o

    def e_JoinedStr(self, n, st):
        cur = [(st, ())]
        for v in n.values:
            nxt = []
            for s, parts in cur:
                if isinstance(v, ast.Constant):
                    nxt.append((s, parts + (C(v.value),)))
                else:
                    for s2, x in self.ev(v.value, s):
                        nxt.append((s2, parts + (x,)))
            cur = nxt
        for s, parts in cur:
            yield s, ("fmt", parts)

    def e_Starred(self, n, st):
        for s, v in self.ev(n.value, st):
            yield s, ("star", v)

    def e_Await(self, n, st):
        yield from self.ev(n.value, st)

    def e_Yield(self, n, st):
        if getattr(self.frame, "cm", None):
            if n.value is None:
                yield from self._resume_with(n, NONE, st)
            else:
                for s, v in self.ev(n.value, st):
                    yield from self._resume_with(n, v, s)
            return
        if n.value is None:
            self.emit(st, "yield", n, value=NONE)
            yield st, ("unk", self.site(n))
            return
        for s, v in self.ev(n.value, st):
            self.emit(s, "yield", n, value=v)
            yield s, ("unk", self.site(n))

    def e_YieldFrom(self, n, st):
        for s, v in self.ev(n.value, st):
            self.emit(s, "yield", n, value=("star", v))
            yield s, ("unk", self.site(n))

    def e_Lambda(self, n, st):
        key = ("closure", "<lambda>", self.site(n))
        self.closures[key] = (n, dict(st.env), self.frame.id, self.frame.func)
        yield st, key

    def e_NamedExpr(self, n, st):
        for s, v in self.ev(n.value, st):
            s = s.copy()
            s.env[n.target.id] = v
            yield s, v

    def e_IfExp(self, n, st):
        for s, w in self.cond(n.test, st):
            yield from self.ev(n.body if w else n.orelse, s)

    def e_BoolOp(self, n, st):
        is_and = isinstance(n.op, ast.And)
        cur = [st]
        last = len(n.values) - 1
        for i, v in enumerate(n.values):
            nxt = []
            for s in cur:
                for s2, t in self.ev(v, s):
                    if i == last:
                        yield s2, t
                        continue
                    for s3 in self.assume(s2.copy(), t, is_and):
                        nxt.append(s3)
                    for s3 in self.assume(s2.copy(), t, not is_and):
                        # known outcome for boolean valued terms
                        yield s3, self.bool_value(t, not is_and)
            cur = nxt

    def bool_value(self, t, truth):
        if t[0] in ("not", "eq", "lt", "is", "in", "const") or (
            t[0] == "call" and t[1] in (("builtin", "all"), ("builtin", "any"),
                                        ("builtin", "isinstance"), ("builtin", "bool"))
        ):
            return TRUE if truth else FALSE
        return t

    def e_UnaryOp(self, n, st):
        for s, v in self.ev(n.operand, st):
            if isinstance(n.op, ast.Not):
                d = self.decide(s, v)
                if d is not None and (v[0] == "const"):
                    yield s, C(not d)
                else:
                    yield s, v[1] if v[0] == "not" and v[1][0] in (
                        "eq", "lt", "is", "in", "not") else ("not", v)
            elif isinstance(n.op, ast.USub) and is_const(v) and isinstance(v[2], (int, float)):
                yield s, C(-v[2])
            else:
                yield s, ("un", type(n.op).__name__, v)

    def e_BinOp(self, n, st):
        for s, a in self.ev(n.left, st):
            for s2, b in self.ev(n.right, s):
                yield s2, self.binop(type(n.op).__name__, a, b, s2, n)

    def binop(self, op, a, b, st, node):
        if is_const(a) and is_const(b):
            try:
                if op == "Add":
                    return C(a[2] + b[2])
                if op == "Sub":
                    return C(a[2] - b[2])
                if op == "Mult" and isinstance(a[2], int) and isinstance(b[2], int):
                    return C(a[2] * b[2])
            except Exception:
                pass
        if op == "Mod" and is_const(a) and isinstance(a[2], str):
            args = b[1] if b[0] == "tuple" else (b,)
            return ("fmt", (a,) + tuple(args))
        if op == "Add" and (self._is_str(a) or self._is_str(b)):
            pa = a[1] if a[0] == "fmt" else (a,)
            pb = b[1] if b[0] == "fmt" else (b,)
            return ("fmt", tuple(pa) + tuple(pb))
        return ("bin", op, a, b)

    @staticmethod
    def _is_str(t):
        return t[0] == "fmt" or (t[0] == "const" and isinstance(t[2], str))

    def mk_eq(self, a, b):
        return ("eq",) + tuple(sorted((a, b), key=repr))

    def e_Compare(self, n, st):
        cur = [(st, None, ())]
        for s, l in self.ev(n.left, st):
            rows = [(s, l, None)]
            for op, right in zip(n.ops, n.comparators):
                nxt = []
                for s2, left, acc in rows:
                    for s3, r in self.ev(right, s2):
                        t = self.mk_cmp(op, left, r, s3)
                        if acc is not None:
                            t = ("and", (acc, t))
                        nxt.append((s3, r, t))
                rows = nxt
            for s2, _, t in rows:
                yield s2, t

    def mk_cmp(self, op, a, b, st):
        o = type(op).__name__
        if is_const(a) and is_const(b):
            try:
                r = {
                    "Eq": lambda: a[2] == b[2], "NotEq": lambda: a[2] != b[2],
                    "Lt": lambda: a[2] < b[2], "LtE": lambda: a[2] <= b[2],
                    "Gt": lambda: a[2] > b[2], "GtE": lambda: a[2] >= b[2],
                    "Is": lambda: a == b, "IsNot": lambda: a != b,
                    "In": lambda: a[2] in b[2], "NotIn": lambda: a[2] not in b[2],
                }[o]()
                return C(r)
            except Exception:
                pass
        if o == "Eq":
            return self.mk_eq(a, b)
        if o == "NotEq":
            return ("not", self.mk_eq(a, b))
        if o == "Lt":
            return ("lt", a, b)
        if o == "Gt":
            return ("lt", b, a)
        if o == "LtE":
            return ("not", ("lt", b, a))
        if o == "GtE":
            return ("not", ("lt", a, b))
        if o in ("Is", "IsNot"):
            if a == NONE:
                a, b = b, a
            t = ("is", a, b)
            return t if o == "Is" else ("not", t)
        if o in ("In", "NotIn"):
            lit = self.literal_items(b, st)
            if lit is None:
                d = self.literal_dict(b, st)
                if d is not None:
                    lit = [k for k, _ in d]
            if lit is not None and all(is_const(x) for x in lit):
                if len(lit) == 1:
                    t = self.mk_eq(a, lit[0])
                else:
                    t = ("in", a, ("consts", tuple(lit)))
            else:
                if b[0] == "call" and b[1][0] == "method" and b[1][2] == "keys" and not b[2]:
                    b = b[1][1]
                t = ("in", a, b)
            return t if o == "In" else ("not", t)
        return ("cmp", o, a, b)

    # comprehensions

    def e_ListComp(self, n, st):
        yield from self._comp(n, st, "list", [n.elt])

    def e_SetComp(self, n, st):
        yield from self._comp(n, st, "set", [n.elt])

    def e_GeneratorExp(self, n, st):
        yield from self._comp(n, st, "gen", [n.elt])

    def e_DictComp(self, n, st):
        yield from self._comp(n, st, "dict", [n.key, n.value])

    def _comp(self, n, st, kind, elts):
        g0 = n.generators[0]
        if self.unroll == "all" and kind in ("list", "gen"):
            rows = self.comp_rows(n, list(n.generators), st.copy(), elts, kind)
            if rows is not None:
                for s, items in rows:
                    r = s.copy()
                    r.env = dict(st.env)
                    yield r, ("tuple", items)
                return
        for s, it in self.ev(g0.iter, st):
            saved = dict(s.env)
            site = self.site(n)
            self.loops.append((site, n, it))
            try:
                rows = self._comp_gen(n, list(n.generators), s.copy(), it)
                vals = []
                hows = {}
                endstates = []
                for s2, conds in rows:
                    for s3, v in self.ev_many(elts, s2):
                        vals.append((v[0] if len(v) == 1 else ("tuple", v), conds))
                        how = frozenset((a, x) for a, x in s3.conds.items() if s2.conds.get(a) is not x)
                        hows.setdefault(vals[-1], []).append(how)
                        endstates.append(s3)
            finally:
                self.loops.pop()
            uniq = []
            for x in vals:
                if x not in uniq:
                    uniq.append(x)
            if not uniq:
                elt, cs = ("unk", site), frozenset()
            elif len(uniq) == 1:
                elt, cs = uniq[0]
            else:
                elt = ("alts", tuple(v for v, _ in uniq))
                cs = ("alts", tuple(c for _, c in uniq))
            r = s.copy()
            r.env = saved
            # keep the trace of the body (it may run)
            if endstates:
                r.trace = endstates[-1].trace
                if len(endstates) > 1:
                    seen = set(id(e) for e in r.trace)
                    extra = tuple(e for x in endstates for e in x.trace if id(e) not in seen
                                  and not seen.add(id(e)))
                    r.trace = r.trace + extra
                made = {v for v, _ in uniq if v[0] == "obj"}
                for k, v in endstates[-1].heap.items():
                    if k[1].startswith("#ver") or k[0] in made and k[1] in ("#items", "#open"):
                        r.heap[k] = v
            if elt[0] == "alts":
                # under which conditions each element is the one
                yield r, ("comp", kind, elt, it, cs, site[:3], tuple(frozenset(hows[x]) for x in uniq))
            else:
                yield r, ("comp", kind, elt, it, cs, site[:3])

    def _comp_gen(self, n, gens, st, it):
        """[(state, conditions)] for the generators of a comprehension."""
        g = gens[0]
        before = set(st.conds.items())
        x = self.elem_of(it, n, st)
        rows = []
        for s1 in self.assign(g.target, x, st.copy(), n, loop=True):
            cur = [s1]
            for c in g.ifs:
                cur = [s3 for s2 in cur for s3, w in self.cond(c, s2) if w]
            for s2 in cur:
                if len(gens) > 1:
                    for s3, it2 in self.ev(gens[1].iter, s2):
                        rows.extend(self._comp_gen(n, gens[1:], s3, it2))
                else:
                    rows.append((s2, frozenset(set(s2.conds.items()) - before)))
        return rows

    # calls

    #: calls considered not to fail (used with implicit="all" only)
    NO_RAISE = {"close", "append", "strip", "split", "join", "group", "groups",
                "keys", "values", "items", "communicate", "poll", "escape", "quote",
                "release", "startswith", "endswith", "format", "getLogger",
                "close_fds", "closing", "nullcontext", "exists", "isfile", "isdir",
                "basename", "dirname", "lexists", "suppress", "ExitStack", "len",
                "isinstance", "getpid"}

    def no_raise(self, node, f):
        if isinstance(node, ast.Subscript):
            return True
        if f is None:
            return False
        name = f[-1] if f[0] in ("method", "ext", "builtin") else ""
        name = name.rsplit(".", 1)[-1] if isinstance(name, str) else ""
        return name in self.NO_RAISE

    def maybe_raise(self, st, node, f=None, what=None):
        if self.implicit == "all" or self.implicit and (
            self.tries or any(h[0] == "acq" for h in st.held)
        ):
            if self.implicit == "all" and self.no_raise(node, f):
                return
            c = st.copy()
            if self.implicit == "all":
                # the path on which this very call fails
                c.trace = c.trace + (Event("fail", node=node, func=self.frame.func, target=f),)
            exc = ("exc", "?", self.site(node))
            self.frame.raises.append((c, exc if what is None else exc + (what,)))

    def e_Call(self, n, st):
        for s, f in self.ev_callee(n.func, st):
            rows = [(s, (), ())]
            for a in n.args:
                nxt = []
                for s2, args, kws in rows:
                    if isinstance(a, ast.Starred):
                        for s3, v in self.ev(a.value, s2):
                            lit = self.literal_items(v, s3)
                            if lit is not None:
                                nxt.append((s3, args + tuple(lit), kws))
                            else:
                                nxt.append((s3, args + (("star", v),), kws))
                    else:
                        for s3, v in self.ev(a, s2):
                            nxt.append((s3, args + (v,), kws))
                rows = nxt
            for k in n.keywords:
                nxt = []
                for s2, args, kws in rows:
                    for s3, v in self.ev(k.value, s2):
                        d = None
                        if k.arg is None and v[0] == "obj" and not s3.heap.get((v, "#open")):
                            d = s3.heap.get((v, "#items"))
                        if d is not None and all(
                                is_const(kk) and isinstance(kk[2], str) for kk, _ in d):
                            nxt.append((s3, args, kws + tuple((kk[2], vv) for kk, vv in d)))
                            continue
                        nxt.append((s3, args, kws + ((k.arg or "**", v),)))
                rows = nxt
            for s2, args, kws in rows:
                yield from self.call(f, args, kws, s2, n)

    def ev_callee(self, node, st):
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id == "super":
            pass
        return self.ev(node, st)

    def can_inline(self, f):
        if len(self.frames) >= self.max_depth:
            return False
        if any(fr.func is f or fr.func.node is f.node for fr in self.frames):
            return False
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f.node)):
            return False
        return not self.opaque(f)

    def call(self, f, args, kws, st, n):
        op = f[0]
        # super()
        if f == ("builtin", "super"):
            cls = self.frame.func.cls
            slf = st.env.get(self.frame.func.params[0]) if self.frame.func.params else None
            bases = [b.qual for b in (cls.bases if cls else []) if isinstance(b, ClassInfo)]
            return [(st, ("super", slf or NONE, tuple(bases)))]
        if op in ("func", "bound"):
            fi = self.p.functions.get(f[1])
            if fi is not None:
                a = ((f[2],) + tuple(args)) if op == "bound" else tuple(args)
                ev = self.emit(st, "call", n, target=("func", fi.qual), args=a, kwargs=kws)
                if self.can_inline(fi):
                    outs = self.inline(fi, a, kws, st, n)
                    return outs
                self.maybe_raise(st, n)
                t = ("call", ("func", fi.qual), a, kws)
                ev.value = t
                return [(st, t)]
        if op == "closure":
            node, env, fid, owner = self.closures[f]
            ev = self.emit(st, "call", n, target=f, args=tuple(args), kwargs=kws)
            if len(self.frames) < self.max_depth and not any(
                getattr(fr, "clo", None) == f for fr in self.frames
            ):
                return self.inline_closure(f, args, kws, st, n)
            return [(st, ("call", f, tuple(args), kws))]
        if op == "cls":
            c = self.p.classes.get(f[1])
            ev = self.emit(st, "call", n, target=f, args=tuple(args), kwargs=kws)
            t = ("new", f[1], tuple(args), tuple(kws), self.site(n))
            ev.value = t
            init = c.find("__init__") if c else None
            if init is not None and self.inline_init and self.can_inline(init):
                return [(s, t) for s, _ in self.inline(init, (t,) + tuple(args), kws, st, n)]
            self.maybe_raise(st, n)
            return [(st, t)]
        if op == "attr":
            # method of an object of unknown class
            f = ("method", f[1], f[2])
            op = "method"
        noise = op == "method" and f[2] in NOISE and self.is_logger(f[1]) or (
            f[0] == "ext" and f[1].split(".")[0] == "logging") or f == ("builtin", "print")
        # higher order builtins
        if op == "builtin" and f[1] in ("getattr",) and len(args) in (2, 3) and is_const(args[1]) and isinstance(args[1][2], str):
            if len(args) == 2:
                self.emit(st, "call", n, target=f, args=tuple(args), kwargs=kws)
                self.maybe_raise(st, n)
                return self.getattr(args[0], args[1][2], st, n)
        if op == "builtin" and f[1] == "setattr" and len(args) == 3:
            base = self.strip(args[0])
            nm = args[1][2] if is_const(args[1]) else "?"
            self.emit(st, "setattr", n, target=base, args=(nm,), value=args[2], how="setattr")
            st.heap[(base, ".%s" % nm)] = args[2]
            return [(st, NONE)]
        if op == "builtin" and f[1] in ("map", "filter") and len(args) == 2 and (
                args[0][0] in ("closure", "func", "bound", "builtin")):
            if self.unroll == "all" and f[1] == "map":
                lit = self.literal_items(args[1], st)
                if lit is not None and len(lit) <= 12:
                    cur = [(st, ())]
                    for y in lit:
                        cur = [(s2, done + (v,)) for s1, done in cur
                               for s2, v in self.call(args[0], (y,), (), s1, n)]
                    return [(s1, ("tuple", done)) for s1, done in cur]
            x = self.elem_of(args[1], n, st)
            rows = self.call(args[0], (x,), (), st.copy(), n)
            site = self.site(n)[:3]
            if rows and f[1] == "map":
                vals = []
                for _, v in rows:
                    if v not in vals:
                        vals.append(v)
                elt = vals[0] if len(vals) == 1 else ("alts", tuple(vals))
                r = rows[-1][0]
                st = st.copy()
                st.trace = r.trace
                return [(st, ("comp", "gen", elt, args[1], frozenset(), site))]
            if rows and f[1] == "filter" and len(rows) == 1:
                atom, pol = self.norm(rows[0][1])
                return [(st, ("comp", "gen", x, args[1], frozenset([(atom, pol)]), site))]
        if self.unroll == "all" and f == ("builtin", "isinstance") and len(args) == 2 and (
                args[0][0] == "tuple" and args[1][0] in ("builtin", "tuple")):
            names = [x[1] for x in (args[1][1] if args[1][0] == "tuple" else (args[1],)) if x[0] == "builtin"]
            if "tuple" in names or len(names) == len(args[1][1]) or args[1][0] == "builtin":
                return [(st, C("tuple" in names))]
        if self.unroll == "all" and f == ("ext", "functools.reduce") and len(args) in (2, 3) and (
                args[0][0] in ("closure", "func", "bound", "ext")):
            lit = self.literal_items(args[1], st)
            if lit is not None and len(lit) <= 12 and (lit or len(args) == 3):
                lit = list(args[2:]) + lit
                cur = [(st, lit[0])]
                for y in lit[1:]:
                    if args[0] == ("ext", "operator.mul"):
                        cur = [(s1, ("bin", "Mult", v, y)) for s1, v in cur]
                    else:
                        cur = [r for s1, v in cur for r in self.call(args[0], (v, y), (), s1, n)]
                return cur
        if self.unroll == "all" and op == "builtin" and f[1] == "next" and args and args[0][0] == "tuple":
            if args[0][1]:
                return [(st, args[0][1][0])]
            if len(args) > 1:
                return [(st, args[1])]
        if op == "builtin" and f[1] in ("any", "all") and len(args) == 1 and args[0][0] == "comp":
            t = self.quantifier(f[1], args[0])
            return [(st, t)]
        if op == "builtin" and f[1] in ("list", "dict", "set") and not args and not kws:
            o = ("obj", f[1], self.site(n))
            for k in [k for k in st.heap if k[0] == o]:
                del st.heap[k]
            st.heap[(o, "#items")] = ()
            return [(st, o)]
        if op == "method" and f[2] == "get" and args:
            d = self.literal_dict(f[1], st)
            if d is not None and not is_const(args[0]):
                default = args[1] if len(args) > 1 else NONE
                out = []
                cur = [st]
                for kk, vv in d:
                    out.extend((x, vv) for x in self.assume(st.copy(), self.mk_eq(args[0], kk), True))
                for x in self.assume(st.copy(), ("in", args[0], ("consts", tuple(k for k, _ in d))), False):
                    out.append((x, default))
                return out
        if op == "method" and f[2] == "format" and self._is_str(f[1]):
            flat = []
            t = ("fmt", (f[1],) + tuple(args) + tuple(v for _, v in kws))
            if not noise:
                self.emit(st, "call", n, target=f, args=tuple(args), kwargs=kws, value=t)
            self.maybe_raise(st, n)
            return [(st, t)]
        t = ("call", f, tuple(args), tuple(kws))
        if noise and not self.keep_noise:
            return [(st, NONE)]
        mut = None
        if op == "method":
            base = self.strip(f[1])
            if f[2] == "append" and len(args) == 1 or f[2] in MUTATORS:
                c = self.typeof(base)
                mut = base
        ev = self.emit(st, "call", n, target=f, args=tuple(args), kwargs=kws, value=t)
        if not (op == "method" and f[2] == "release"):
            self.maybe_raise(st, n, f)
        if mut is not None:
            before = st.heap.get((mut, "#items"))
            if before is None and self.unroll == "all" and mut[0] != "tuple":
                before = self.literal_items(mut, st)
                before = tuple(before) if before is not None else None
            opened = st.heap.get((mut, "#open"))
            self.emit(st, "mutate", n, target=mut, how=f[2], args=tuple(args), kwargs=kws)
            oldver = self.ver(st, mut)
            t = ("call", ("method", oldver, f[2]), tuple(args), tuple(kws))
            self.touch(st, mut)
            if f[2] == "append" and len(args) == 1:
                st.heap[(mut, "[-1]")] = args[0]
                if before is not None and (mut[0] == "obj" or self.unroll == "all"):
                    st.heap[(mut, "#items")] = before + (args[0],)
            if f[2] == "extend" and len(args) == 1 and self.unroll == "all" and before is not None:
                more = self.literal_items(args[0], st)
                if more is not None:
                    st.heap[(mut, "#items")] = before + tuple(more)
            if f[2] == "insert" and len(args) == 2 and self.unroll == "all" and before is not None and (
                    args[0] == C(0)):
                st.heap[(mut, "#items")] = (args[1],) + before
            ev.value = t
        elif op == "method" and f[2] in ("acquire", "release") :
            base = self.strip(f[1])
            h = list(st.held)
            if f[2] == "acquire":
                sure = (not args or args == (TRUE,)) and not [k for k in kws if k != ("blocking", TRUE)]
                if not sure:
                    # the attempt may fail
                    other = st.copy()
                    other.conds = dict(other.conds)
                    other.conds[t] = False
                    st.conds = dict(st.conds)
                    st.conds[t] = True
                    st.held = st.held + (("acq", base),)
                    return [(st, t), (other, t)]
                st.held = st.held + (("acq", base),)
            else:
                for i in range(len(h) - 1, -1, -1):
                    if h[i] == ("acq", base):
                        del h[i]
                        break
                st.held = tuple(h)
        elif op == "method" and f[2] == "enter_context" and args:
            st.held = st.held + (("with", self.strip(args[0])),)
        # callbacks given to known higher order functions run here
        return [(st, self.fold_call(t))]

    def fold_call(self, t):
        f, a = t[1], t[2]
        if f == ("builtin", "len") and len(a) == 1 and a[0][0] == "tuple":
            return C(len(a[0][1]))
        if f[0] == "builtin" and f[1] == "bool" and len(a) == 1 and is_const(a[0]):
            return C(bool(a[0][2]))
        return t

    def quantifier(self, name, comp):
        """any/all over a comprehension as a quantified condition."""
        _, kind, elt, it, cs, site = comp[:6]
        if name == "all":
            lits = self._neg(elt, cs)
            return ("forall", it, site, lits)
        lits = self._pos(elt, cs)
        return ("not", ("forall", it, site, lits))

    def _pos(self, elt, cs):
        # any(elt for .. if cs) false <=> for all: not (cs and elt)
        parts = []
        if isinstance(cs, frozenset):
            for a, v in cs:
                parts.append(frozenset([(a, not v)]))
        for conj in self._clauses(elt, False):
            parts.append(conj)
        return frozenset(parts)

    def _neg(self, elt, cs):
        # all(elt for .. if cs) true <=> for all: not cs or elt
        parts = []
        if isinstance(cs, frozenset):
            for a, v in cs:
                parts.append(frozenset([(a, not v)]))
        for conj in self._clauses(elt, True):
            parts.append(conj)
        return frozenset(parts)

    def _clauses(self, t, want):
        """DNF clauses making a boolean term `want`."""
        atom, pol = self.norm(t)
        if not pol:
            want = not want
        if atom[0] == "alts":
            return [c for x in atom[1] for c in self._clauses(x, want)]
        if atom[0] == "const":
            return [frozenset()] if bool(atom[2]) == want else []
        if atom[0] in ("and", "or"):
            if (atom[0] == "and") == want:
                cl = [frozenset()]
                for p in atom[1]:
                    cl = [a | b for a in cl for b in self._clauses(p, want)]
                return cl
            return [c for p in atom[1] for c in self._clauses(p, want)]
        return [frozenset([(atom, want)])]

    def is_logger(self, t):
        if t[0] == "global" and t[2] in ("logger", "log", "_logger", "LOGGER"):
            return True
        if t[0] == "ext" and t[1].split(".")[0] == "logging":
            return True
        if t[0] == "call" and t[1][0] == "ext" and t[1][1].startswith("logging."):
            return True
        return False

    def bind(self, fnode, args, kws, st, defaults_env=None, skip=None):
        a = fnode.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        pos = list(args)
        star = [i for i, x in enumerate(pos) if x[0] == "star"]
        if star:
            fixed = pos[: star[0]]
            rest = pos[star[0]][1]
        else:
            fixed, rest = pos, None
        for nm, v in zip(names, fixed):
            env[nm] = v
        extra = fixed[len(names):]
        if rest is not None:
            j = 0
            kwnames = {k for k, _ in kws}
            for nm in names[len(fixed):]:
                if nm in kwnames:
                    break
                env[nm] = self.mk_item(rest, C(j), st)
                j += 1
        if a.vararg:
            if rest is not None and not extra:
                k = max(0, len(names) - len(fixed))
                env[a.vararg.arg] = rest if k == 0 else ("slice", rest, C(k), NONE, NONE)
            else:
                env[a.vararg.arg] = ("tuple", tuple(extra))
        kwleft = []
        kwonly = [x.arg for x in a.kwonlyargs]
        starkw = None
        for k, v in kws:
            if k == "**":
                starkw = v
            elif k in names or k in kwonly:
                env[k] = v
            else:
                kwleft.append((k, v))
        if a.kwarg:
            if starkw is not None and not kwleft:
                env[a.kwarg.arg] = ("call", ("builtin", "dict"), (starkw,), ())
            else:
                env[a.kwarg.arg] = ("kwdict", tuple(kwleft))
        # defaults
        dl = a.defaults
        for nm, d in zip(names[len(names) - len(dl):], dl):
            if nm not in env:
                env[nm] = self.default_value(d, nm, starkw)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in env and d is not None:
                env[x.arg] = self.default_value(d, x.arg, starkw)
        for nm in names + kwonly:
            if nm not in env:
                env[nm] = ("item", starkw, C(nm)) if starkw is not None else ("unk", ("arg", nm))
        return env

    def default_value(self, d, nm, starkw):
        if starkw is not None:
            return ("item", starkw, C(nm))
        if isinstance(d, ast.Constant):
            return C(d.value)
        if isinstance(d, ast.Tuple) and not d.elts:
            return ("tuple", ())
        return ("default", nm, ast.dump(d))

    def inline(self, fi, args, kws, st, n, bound=None):
        env = self.bind(fi.node, args, kws, st)
        return self._inline(fi, fi.node, env, st, n, fi)

    def inline_closure(self, f, args, kws, st, n):
        node, denv, fid, owner = self.closures[f]
        env = self.bind(node, args, kws, st)
        env["%closure"] = f
        fi = getattr(node, "_finfo", None) or owner
        if isinstance(node, ast.Lambda):
            fr = Frame(owner, 0)
            fr.clo = f
            fr.callnode = getattr(n, "lineno", 0) * 1000 + getattr(n, "col_offset", 0)
            caller = st.env
            s = st.copy()
            caller_env = dict(st.env)
            caller_env["%fid"] = self.frame.id
            s.saved = s.saved + (caller_env,)
            s.env = env
            self.frames.append(fr)
            try:
                res = self.ev(node.body, s)
            finally:
                self.frames.pop()
            self.frame.raises.extend(
                (self._restore(x, caller), e) for x, e in fr.raises)
            return [(self._restore(s2, caller), v) for s2, v in res]
        return self._inline(fi, node, env, st, n, fi, clo=f)

    def _restore(self, s, caller):
        s = s.copy()
        s.env = dict(s.saved[-1])
        s.saved = s.saved[:-1]
        return s

    def _inline(self, fi, node, env, st, n, func, clo=None):
        fr = Frame(func, len(self.frames))
        fr.clo = clo
        fr.callnode = getattr(n, "lineno", 0) * 1000 + getattr(n, "col_offset", 0)
        caller = st.env
        s = st.copy()
        caller_env = dict(st.env)
        caller_env["%fid"] = self.frame.id
        s.saved = s.saved + (caller_env,)
        s.env = env
        self.frames.append(fr)
        try:
            outs = self.exec_body(node.body, [s])
        finally:
            self.frames.pop()
        res = []
        raises = list(fr.raises)
        for s2, o in outs:
            if o is None:
                res.append((s2, NONE))
            elif o[0] == "return":
                res.append((s2, o[1]))
            elif o[0] == "raise":
                raises.append((s2, o[1]))
        for s2, e in raises:
            self.frame.raises.append((self._restore(s2, caller), e))
        out = []
        seen = set()
        for s2, v in res:
            s3 = self._restore(s2, caller)
            k = (s3.key(), v)
            if k not in seen:
                seen.add(k)
                out.append((s3, v))
        return out


def flow_of(program, qual, **kw):
    self_cls = kw.pop("self_cls", None)
    args = kw.pop("args", None)
    state = kw.pop("state", None)
    f = program.func(qual) if isinstance(qual, str) else qual
    fl = Flow(program, **kw)
    fl.outcomes = fl.run(f, args=args, self_cls=self_cls, state=state)
    fl.entry = f
    return fl
